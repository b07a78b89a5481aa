"""L01-L06: lossless source codes and universal integer codes."""
import heapq
import itertools
from fractions import Fraction

import numpy as np

import komm

from .core import rule, section

rule("L01", "Random prefix-free, suffix-free (uniquely decodable, not prefix-free) and constructed codes over random alphabets, block "
     "sizes and dictionary listings; random and adversarial source sequences; oracle is concatenation by table lookup.")
rule("L02", "Random pmfs (integer weights, ties, zeros, extreme ratios, dyadic) and options; oracles: exact-rational Huffman minimum, "
     "exact Shannon lengths, the set of most-balanced split recursions, expected length summed from the mapping.")
rule("L03", "Random codebooks over small alphabets; oracles: pairwise prefix test, bounded search for two parses of one string plus a "
     "dangling-suffix automaton, exhaustive covering test on all strings of the maximal length, exact rational Kraft sum.")
rule("L04", "Random complete trees and assignments, Tunstall codes for random pmfs; oracles: greedy tree walk, exact-rational best tree.")
rule("L05", "Random parameters (cardinalities up to beyond one byte, window sizes, initial buffers) and sources (empty, constant, "
     "periodic, incompressible, Markov); oracles: the source itself, an independent token validator and longest-match search.")
rule("L06", "Random sequences with magnitudes over the whole integer range; oracles: unary words and greedy Zeckendorf expansion.")


# ---------------------------------------------------------------- generators
def rand_pmf(r, S):
    kind = int(r.integers(0, 7))
    if kind == 0:
        w = r.integers(1, 100, size=S)
    elif kind == 1:  # many ties
        w = r.integers(1, 4, size=S)
    elif kind == 2:  # zeros
        w = r.integers(0, 4, size=S)
        if w.sum() == 0:
            w[int(r.integers(0, S))] = 1
    elif kind == 3:  # extreme ratios
        w = [int(2.0 ** x) for x in r.uniform(0, 40, size=S)]
    elif kind == 4:  # dyadic: split 1 at random
        p = [Fraction(1)]
        while len(p) < S:
            p.sort()
            x = p.pop(int(r.integers(0, len(p))))
            p += [x / 2, x / 2]
        r.shuffle(p)
        return np.array([float(x) for x in p])
    elif kind == 5:
        w = np.ones(S, int)
    else:
        p = r.dirichlet(np.full(S, 0.5))
        p = np.maximum(p, 1e-12)
        return p / p.sum()
    w = np.array([int(x) for x in w], dtype=object)
    return np.array([float(Fraction(int(x), int(w.sum()))) for x in w])


def rand_tree(r, base, leaves_max, min_leaves=2):
    """Leaves of a random complete base-ary tree (prefix-free, Kraft-tight)."""
    L = [(s,) for s in range(base)]
    while len(L) + base - 1 <= leaves_max and (len(L) < min_leaves or r.random() < 0.75):
        w = L.pop(int(r.integers(0, len(L))))
        L += [w + (s,) for s in range(base)]
    return L


def rand_words(r, base, count, maxlen):
    out = []
    for _ in range(count):
        out.append(tuple(int(x) for x in r.integers(0, base, size=int(r.integers(1, maxlen + 1)))))
    return out


def shuffled(r, d):
    ks = list(d)
    r.shuffle(ks)
    return {tuple(int(x) for x in k): d[tuple(int(x) for x in k)] for k in map(tuple, ks)}


def rand_seq(r, S, n):
    kind = int(r.integers(0, 5))
    if n == 0:
        return np.zeros(0, dtype=int)
    if kind == 0:
        return np.full(n, int(r.integers(0, S)))
    if kind == 1:
        p = r.integers(0, S, size=int(r.integers(1, 6)))
        return np.resize(p, n)
    if kind == 2:
        x = np.zeros(n, int)
        x[0] = r.integers(0, S)
        for t in range(1, n):
            x[t] = x[t - 1] if r.random() < 0.8 else r.integers(0, S)
        return x
    if kind == 3:
        return np.minimum(r.geometric(0.5, size=n) - 1, S - 1)
    return r.integers(0, S, size=n)


def rand_fv(r):
    """A uniquely decodable fixed-to-variable code: (code, expected mapping, description)."""
    kind = int(r.integers(0, 9))
    S = int(r.integers(2, 7))
    k = int(r.integers(1, 4)) if S <= 3 else int(r.integers(1, 3))
    if kind in (0, 1, 2):
        Y = int(r.integers(2, 5))
        N = S ** k
        L = rand_tree(r, Y, N + int(r.integers(0, 8)) + Y, N)
        while len(L) < N:
            w = L.pop(int(r.integers(0, len(L))))
            L += [w + (s,) for s in range(Y)]
        r.shuffle(L)
        L = [tuple(int(x) for x in w) for w in L][:N]
        if kind == 1:  # suffix-free: uniquely decodable, generally not prefix-free
            L = [w[::-1] for w in L]
        mp = dict(zip(itertools.product(range(S), repeat=k), L))
        if kind == 2:
            if max(max(w) for w in L) == 0:
                Y = 2
                code = komm.FixedToVariableCode(S, Y, k, mp)
            else:
                code = komm.FixedToVariableCode.from_codewords(L, source_cardinality=S if k > 1 else None)
            return code, mp, f"from_codewords(S={S},k={k},{L})"
        mp2 = shuffled(r, mp)
        if r.integers(0, 2) or max(max(w) for w in L) == 0:
            return komm.FixedToVariableCode(S, Y, k, mp2), mp, f"map(S={S},Y={Y},k={k},{mp2})"
        return komm.FixedToVariableCode.from_enc_mapping(mp2), mp, f"from_enc_mapping({mp2})"
    if kind == 3:
        Y = int(r.integers(2, 5))
        N = S ** k
        L = rand_tree(r, Y, 10**9 if N > 1000 else N + Y + 3, N)
        while len(L) < N:
            w = L.pop(int(r.integers(0, len(L))))
            L += [w + (s,) for s in range(Y)]
        lens = [len(w) for w in L][:N]
        r.shuffle(lens)
        code = komm.FixedToVariableCode.from_lengths(lens, source_cardinality=S if k > 1 else None, target_cardinality=Y)
        return code, None, f"from_lengths({lens},S={S},Y={Y})"
    p = rand_pmf(r, S)
    if kind == 4 and np.all(p > 1e-60):
        ok = sum((Fraction(1, 2 ** exact_shannon(x)) for x in p), Fraction(0)) <= 1
        if ok and k == 1:
            return komm.ShannonCode(p), None, f"Shannon({p.tolist()})"
    if kind == 5:
        return komm.FanoCode(p, k), None, f"Fano({p.tolist()},{k})"
    pol = str(r.choice(["high", "low"]))
    asg = str(r.choice(["tree", "canonical"]))
    return komm.HuffmanCode(p, k, policy=pol, assignment=asg), None, f"Huffman({p.tolist()},{k},{pol},{asg})"


def prefix_free(ws):
    return not any(i != j and ws[j][:len(ws[i])] == ws[i] for i in range(len(ws)) for j in range(len(ws)))


def exact_shannon(p):
    p = Fraction(float(p))
    l = 1
    while Fraction(1, 2 ** l) > p:
        l += 1
    return l


# ---------------------------------------------------------------- L01
@section("L01", 900, 12000)
def fv_roundtrip(m, r, i):
    code, mp, desc = rand_fv(r)
    m.note(code=desc)
    S, k, Y = code.source_cardinality, code.source_block_size, code.target_cardinality
    em = {tuple(int(a) for a in x): tuple(int(b) for b in y) for x, y in code.enc_mapping.items()}
    if mp is not None:
        m.eq(em, mp, "enc_mapping equals the mapping the code was built from")
    m.eq(set(em), set(itertools.product(range(S), repeat=k)), "domain is the set of all source blocks")
    m.ok(all(len(w) > 0 and all(0 <= c < Y for c in w) for w in em.values()), "codewords are non-empty words over the target alphabet")
    pf = prefix_free(list(em.values()))
    for _ in range(3):
        n = int(r.integers(0, 40))
        x = rand_seq(r, S, n * k)
        m.note(x=x)
        want = [c for j in range(n) for c in em[tuple(int(a) for a in x[j * k:j * k + k])]]
        dt = r.choice([int, np.uint8, np.int32])
        y = np.asarray(code.encode(x.astype(dt) if r.integers(0, 2) else [int(a) for a in x]))
        m.eq(y, want, "encode = concatenation of the codewords of the blocks")
        if pf:
            m.eq(code.decode(y), x, "decode(encode(x)) = x")
            if want:
                # a proper truncation that cuts inside the last codeword is not a concatenation of codewords
                w = em[tuple(int(a) for a in x[-k:])]
                if len(w) > 1:
                    m.refuses(lambda: code.decode(want[:-1]), "truncated stream refused")
            m.tag("prefix-free")
        else:
            try:
                m.eq(code.decode(y), x, "decode(encode(x)) = x (not prefix-free)")
                m.tag("non-prefix-free decoded")
            except NotImplementedError:
                m.tag("non-prefix-free: documented as not implemented")
        if k > 1:
            bad = rand_seq(r, S, n * k + int(r.integers(1, k)))
            m.refuses(lambda: code.encode(bad), "input not a multiple of the block size refused")


@section("L01", 300, 4000)
def fv_not_decodable(m, r, i):
    """Codes that are not uniquely decodable are never used silently."""
    S = int(r.integers(2, 6))
    Y = int(r.integers(2, 4))
    ws = rand_words(r, Y, S, 4)
    if S >= 3 and r.integers(0, 2):
        ws[2] = ws[0] + ws[1]
    m.note(words=ws)
    code = komm.FixedToVariableCode(S, Y, 1, {(j,): w for j, w in enumerate(ws)})
    if two_parses(ws) is None:
        m.tag("decodable")
        x = r.integers(0, S, size=9)
        want = [c for a in x for c in ws[int(a)]]
        m.eq(code.encode(x), want, "encode")
        if prefix_free(ws):
            m.eq(code.decode(want), x, "decode")
        return
    m.refuses(lambda: code.encode([0, 1]), "encode with a code that is not uniquely decodable")
    m.refuses(lambda: code.decode(ws[0]), "decode with a code that is not uniquely decodable")


# ---------------------------------------------------------------- L02
def huff_min(ps):
    """Minimum expected length over binary prefix codes for exact weights ps (n >= 2)."""
    h = list(ps)
    heapq.heapify(h)
    tot = Fraction(0)
    while len(h) > 1:
        a, b = heapq.heappop(h), heapq.heappop(h)
        tot += a + b
        heapq.heappush(h, a + b)
    return tot


def ext(p, k):
    """float probabilities of the k-blocks in lexicographic order, exact."""
    f = [Fraction(float(x)) for x in p]
    out = [Fraction(1)]
    for _ in range(k):
        out = [a * b for a in out for b in f]
    return out


def pick(r):
    S = int(r.integers(2, 9))
    k = 1 if S > 4 else int(r.integers(1, 4 if S <= 3 else 3))
    return S, k, rand_pmf(r, S)


def all_lengths(code):
    return [len(code.enc_mapping[x]) for x in itertools.product(range(code.source_cardinality), repeat=code.source_block_size)]


@section("L02", 900, 12000)
def huffman_optimal(m, r, i):
    S, k, p = pick(r)
    m.note(pmf=p.tolist(), k=k)
    q = ext(p, k)
    best = huff_min(q)
    per = {}
    for pol in ("high", "low"):
        for asg in ("tree", "canonical"):
            c = komm.HuffmanCode(p, k, policy=pol, assignment=asg)
            ws = [tuple(c.enc_mapping[x]) for x in itertools.product(range(S), repeat=k)]
            m.ok(prefix_free(ws), f"Huffman {pol}/{asg} is prefix-free: {ws}")
            m.ok(all(b in (0, 1) for w in ws for b in w), "binary codewords")
            L = [len(w) for w in ws]
            m.eq(c.lengths, L, "lengths property")
            E = sum(a * b for a, b in zip(q, L))
            m.close(float(E), float(best), f"Huffman {pol}/{asg}: expected length is the minimum", 1e-9, 1e-12)
            m.eq(sum(Fraction(1, 2 ** l) for l in L) == 1, True, "Kraft sum of a Huffman code is 1")
            m.close(c.rate(p), float(E) / k, "rate = expected codeword length per symbol", 1e-9)
            m.close(c.kraft_parameter(), 1.0, "kraft_parameter", 1e-12)
            m.ok(c.is_prefix_free() and c.is_uniquely_decodable(), "predicates of a Huffman code")
            if asg == "canonical":
                m.eq(L, per[pol], "canonical assignment keeps the lengths")
                srt = sorted(range(len(ws)), key=lambda j: (L[j], j))
                m.ok(all(ws[a] < ws[b] for a, b in zip(srt, srt[1:])), "canonical codewords increase lexicographically with (length, index)")
                m.ok(all(b == 0 for b in ws[srt[0]]), "canonical code starts at the all-zero word")
            else:
                per[pol] = L
                # bit 1 is assigned to the less probable of the two merged nodes
                mass = {}
                for w, pr in zip(ws, q):
                    for t in range(len(w) + 1):
                        mass[w[:t]] = mass.get(w[:t], 0) + pr
                for w in mass:
                    if w + (0,) in mass:
                        m.ok(float(mass[w + (1,)]) <= float(mass[w + (0,)]) * (1 + 1e-9) + 1e-300,
                             f"tree assignment gives bit 1 to the less probable subtree at {w}")
    if len(set(map(tuple, per.values()))) > 1:
        m.tag("policies differ")
        m.ok(max(per["high"]) <= max(per["low"]) + 0 or not _exactly(q), "policy 'high' does not lengthen the longest codeword")


def _exactly(q):
    return all(f.denominator & (f.denominator - 1) == 0 and f.denominator <= 2**40 for f in q)


@section("L02", 300, 4000)
def huffman_policy(m, r, i):
    """With exactly representable weights, 'high' gives the least and 'low' the largest spread of lengths."""
    n = int(r.integers(3, 8))
    while True:
        w = r.integers(1, 5, size=n)
        w[0] += 32 - w.sum() if w.sum() < 32 and r.integers(0, 2) else 0
        tot = 1 << int(w.sum() - 1).bit_length()
        w[int(r.integers(0, n))] += tot - w.sum()
        if np.all(w > 0):
            break
    p = w / tot
    m.note(w=w.tolist())
    # all optimal length vectors from all tie choices of the Huffman procedure
    outs = set()

    def go(nodes, depth):
        if len(nodes) == 1:
            outs.add(depth)
            return
        nodes = sorted(nodes, key=lambda t: t[0])
        a = nodes[0][0]
        b = nodes[1][0]
        seen = set()
        for x, y in itertools.combinations(range(len(nodes)), 2):
            if nodes[x][0] == a and nodes[y][0] == b:
                key = (sig(nodes[x], depth), sig(nodes[y], depth))
                if key in seen:
                    continue
                seen.add(key)
                grp = nodes[x][1] + nodes[y][1]
                d2 = list(depth)
                for s in grp:
                    d2[s] += 1
                go([nodes[z] for z in range(len(nodes)) if z not in (x, y)] + [(a + b, grp)], tuple(d2))

    def sig(node, depth):
        return (node[0], tuple(sorted((int(w[s]), depth[s]) for s in node[1])))

    go([(int(x), (j,)) for j, x in enumerate(w)], (0,) * n)
    hi = komm.HuffmanCode(p, policy="high").lengths
    lo = komm.HuffmanCode(p, policy="low").lengths
    m.ok(tuple(sorted(hi)) in {tuple(sorted(o)) for o in outs}, "'high' lengths come from a Huffman procedure")
    m.eq((max(hi), sum(hi)), (min(max(o) for o in outs), min(sum(o) for o in outs)),
         "'high' (combined symbols as high as possible) gives the smallest longest word and total length")
    m.ok(max(lo) >= max(hi) and sum(lo) >= sum(hi), "'low' is no flatter than 'high'")


@section("L02", 600, 8000)
def shannon_lengths(m, r, i):
    S, k, p = pick(r)
    if i % 4 == 0:  # near powers of two
        p = np.array([0.5, 0.25, 0.125, 0.125])[: S] if S <= 4 else p
        if p.sum() < 1:
            p = np.append(p, 1 - p.sum())
        S = p.size
        d = np.ldexp(1.0, -int(r.integers(20, 54)))
        p[0] -= d
        p[-1] += d
        k = int(r.integers(1, 3))
    if i % 7 == 1:
        p = np.array([1.0 - 2 * (t := 10.0 ** -float(r.uniform(1, 320))), t, t])
        S, k = 3, 1
    m.note(pmf=p.tolist(), k=k)
    if not np.all(p > 0):
        m.refuses(lambda: komm.ShannonCode(p, k), "Shannon code of a pmf with zeros")
        return
    # probabilities as komm's documented formula sees them: products of floats
    fq = [float(np.prod(t)) for t in itertools.product(p, repeat=k)]
    if min(fq) == 0:
        m.trivial()
        return
    want = [exact_shannon(x) for x in fq]
    kraft = sum(Fraction(1, 2 ** l) for l in want)
    if kraft > 1:  # rounding of the float pmf, no prefix code with these lengths exists
        m.trivial()
        return
    c = komm.ShannonCode(p, k)
    got = all_lengths(c)
    if k > 1:  # product rounding may move a probability across a power of two
        eps = [(exact_shannon(x * (1 - 1e-15)), exact_shannon(min(1.0, x * (1 + 1e-15)))) for x in fq]
        m.ok(all(b <= g <= a for g, (a, b) in zip(got, eps)), f"Shannon lengths: {got} expected {want}")
    else:
        m.eq(got, want, "Shannon length = ceil(log2 1/p) (at least 1)")
    ws = [tuple(w) for w in c.enc_mapping.values()]
    m.ok(prefix_free(ws), "Shannon code is prefix-free")
    E = sum(a * l for a, l in zip(ext(p, k), got))
    m.close(c.rate(p), float(E) / k, "rate", 1e-9)
    H = float(komm.entropy(p))
    m.ok(H - 1e-9 <= c.rate(p) < H + 1 / k + 1e-6 or k == 1 and max(p) == 1.0, lambda: f"H <= rate < H + 1/k: {c.rate(p)} {H}")


def fano_sets(ps, tol=1e-13):
    """All length tuples (over the sorted list) reachable by most-balanced splits (ties within tol)."""
    import functools

    @functools.lru_cache(None)
    def go(lo, hi):
        if hi - lo == 1:
            return frozenset([(0,)])
        tot = sum(ps[lo:hi])
        acc, best, c = 0, None, []
        for x in range(lo, hi - 1):
            acc += ps[x]
            c.append((abs(acc - tot / 2), x + 1))
        best = min(d for d, _ in c)
        out = set()
        for d, mid in c:
            if d <= best + tol * tot + Fraction(1, 10**320):
                for a in go(lo, mid):
                    for b in go(mid, hi):
                        out.add(tuple(x + 1 for x in a) + tuple(x + 1 for x in b))
                        if len(out) > 3000:
                            raise OverflowError
        return frozenset(out)

    return go(0, len(ps))


@section("L02", 500, 8000)
def fano_splits(m, r, i):
    S, k, p = pick(r)
    m.note(pmf=p.tolist(), k=k)
    c = komm.FanoCode(p, k)
    L = all_lengths(c)
    q = ext(p, k)
    ws = [tuple(c.enc_mapping[x]) for x in itertools.product(range(S), repeat=k)]
    m.ok(prefix_free(ws), "Fano code is prefix-free")
    m.eq(sum(Fraction(1, 2 ** l) for l in L), Fraction(1), "Fano splits exhaust the tree (Kraft sum 1)")
    m.close(c.rate(p), float(sum(a * l for a, l in zip(q, L))) / k, "rate", 1e-9)
    fq = [Fraction(float(np.prod(t))) for t in itertools.product(p, repeat=k)]
    order = sorted(range(len(fq)), key=lambda j: -fq[j])
    try:
        sets = fano_sets(tuple(fq[j] for j in order), Fraction(1, 10**13))
    except OverflowError:
        m.tag("too many ties")
        return
    # symbols whose probabilities agree to rounding may trade places
    cls, prev = {}, None
    for j in order:
        v = float(fq[j])
        if prev is None or v < prev * (1 - 1e-13):
            prev = v
        cls[j] = prev
    def bag(seq):
        return sorted((cls[j], l) for j, l in zip(order, seq))
    got = bag([L[j] for j in order])
    m.ok(any(bag(s) == got for s in sets), lambda: f"Fano lengths {L} do not come from most-balanced splits")


@section("L02", 400, 5000)
def rate_any_listing(m, r, i):
    """rate/lengths/codewords do not depend on the order in which the mapping is listed."""
    S = int(r.integers(2, 5))
    k = int(r.integers(1, 4))
    Y = int(r.integers(2, 4))
    mp = {x: w for x, w in zip(itertools.product(range(S), repeat=k), rand_words(r, Y, S ** k, 5))}
    d = shuffled(r, mp)
    p = rand_pmf(r, S)
    m.note(mapping=d, pmf=p.tolist())
    c = komm.FixedToVariableCode(S, Y, k, d)
    q = ext(p, k)
    E = sum(a * len(w) for a, w in zip(q, mp.values())) / k
    m.close(c.rate(p), float(E), "rate = expected codeword length per source symbol", 1e-9)
    m.eq(c.lengths, [len(w) for w in mp.values()], "lengths in the lexicographic order of the source blocks")
    K = sum(Fraction(1, Y ** len(w)) for w in mp.values())
    m.close(c.kraft_parameter(), float(K), "Kraft sum", 1e-12)
    m.eq(sorted(map(tuple, c.codewords)), sorted(mp.values()), "codewords are the image of the mapping")


@section("L02", 300, 4000)
def canonical_lengths(m, r, i):
    """from_lengths: canonical, lexicographic, base-Y; refuses lengths that violate Kraft."""
    Y = int(r.integers(2, 6))
    N = int(r.integers(2, 12))
    lens = [int(x) for x in r.integers(1, 5 + (i % 3) * 20, size=N)]
    K = sum(Fraction(1, Y ** l) for l in lens)
    m.note(lens=lens, Y=Y)
    if K > 1:
        m.refuses(lambda: komm.FixedToVariableCode.from_lengths(lens, target_cardinality=Y), f"lengths with Kraft sum {K}")
        m.tag("refused")
        return
    c = komm.FixedToVariableCode.from_lengths(lens, target_cardinality=Y)
    ws = [tuple(c.enc_mapping[(j,)]) for j in range(N)]
    m.eq([len(w) for w in ws], lens, "codeword lengths")
    m.ok(prefix_free(ws), "canonical code is prefix-free")
    # reference canonical code: successive integers
    order = sorted(range(N), key=lambda j: (lens[j], j))
    v, prev = 0, lens[order[0]]
    for j in order:
        v *= Y ** (lens[j] - prev)
        prev = lens[j]
        x, w = v, []
        for _ in range(prev):
            x, d = divmod(x, Y)
            w.append(d)
        m.eq(ws[j], tuple(w[::-1]), f"canonical codeword {j}")
        v += 1
    m.ok(c.is_prefix_free() and c.is_uniquely_decodable(), "predicates")


# ---------------------------------------------------------------- L03
def two_parses(ws):
    """None if uniquely decodable; else a witness length.  BFS over dangling suffixes (independent formulation:
    shortest ambiguous string in the product automaton)."""
    if len(set(ws)) < len(ws):
        return 1
    import collections
    todo = collections.deque()
    seen = set()
    for a, b in itertools.permutations(ws, 2):
        if b[:len(a)] == a:
            d = b[len(a):]
            if d not in seen:
                seen.add(d)
                todo.append(d)
    while todo:
        d = todo.popleft()
        if d in ws:
            return d
        for w in ws:
            if w[:len(d)] == d and len(w) > len(d):
                e = w[len(d):]
            elif d[:len(w)] == w and len(d) > len(w):
                e = d[len(w):]
            else:
                continue
            if e not in seen:
                seen.add(e)
                todo.append(e)
    return None


def brute_ambiguous(ws, maxlen):
    """Some string of length <= maxlen has two parses (dynamic programming over strings built from words)."""
    count = {(): 1}
    frontier = {(): 1}
    # number of parses of each string, built in order of length
    by_len = {0: {(): 1}}
    for n in range(1, maxlen + 1):
        cur = {}
        for w in set(ws):
            mult = ws.count(w)
            prev = by_len.get(n - len(w), {}) if n >= len(w) else {}
            for s, c in prev.items():
                cur[s + w] = cur.get(s + w, 0) + c * mult
        by_len[n] = cur
        if any(c > 1 for c in cur.values()):
            return True
        if sum(map(len, by_len.values())) > 4000:
            return None
    return False


@section("L03", 900, 12000)
def decodability(m, r, i):
    Y = int(r.integers(2, 4))
    S = int(r.integers(2, 6))
    ws = rand_words(r, Y, S, int(r.integers(2, 5)))
    t = int(r.integers(0, 4))
    if t == 1:
        ws = [w[::-1] for w in rand_tree(r, Y, 9, S)][:S] if True else ws
        S = len(ws)
    if t == 2 and S >= 3:
        ws[-1] = ws[0] + ws[int(r.integers(0, S - 1))]
    if t == 3:  # long ambiguity: a word is pieces of others
        z = ws[0] + ws[1] + ws[0]
        c = int(r.integers(1, len(z)))
        ws[-1] = z[c:]
    m.note(words=ws)
    c = komm.FixedToVariableCode(S, Y, 1, {(j,): w for j, w in enumerate(ws)})
    pf, ud = prefix_free(ws), two_parses(ws) is None
    m.eq(c.is_prefix_free(), pf, "is_prefix_free")
    m.eq(c.is_uniquely_decodable(), ud, "is_uniquely_decodable")
    m.tag(f"prefix-free={pf} decodable={ud}")
    b = brute_ambiguous(ws, 12)
    if b:
        m.eq(c.is_uniquely_decodable(), False, "two source strings share an encoding")
    if ud:
        m.ok(not b, "oracle self-check: decodable code has no ambiguous string")
    K = sum(Fraction(1, Y ** len(w)) for w in ws)
    m.close(c.kraft_parameter(), float(K), "Kraft sum", 1e-12)
    if ud:
        m.ok(K <= 1, "McMillan (oracle self-check)")
    if len({w for w in ws}) == len(ws):
        # the same words as a variable-to-fixed dictionary
        n = 1
        while 2 ** n < len(ws):
            n += 1
        d = komm.VariableToFixedCode(2, Y, n, dict(zip(itertools.product((0, 1), repeat=n), ws)))
        m.eq(d.is_prefix_free(), pf, "variable-to-fixed is_prefix_free")
        m.eq(d.is_uniquely_encodable(), ud, "is_uniquely_encodable")


def covers(ws, X):
    """Every infinite sequence has a prefix in ws, tested on all strings of maximal length (plus padding)."""
    L = max(map(len, ws))
    st = set(ws)
    return all(any(s[:l] in st for l in range(1, L + 1)) for s in itertools.product(range(X), repeat=L))


@section("L03", 700, 8000)
def covering(m, r, i):
    X = int(r.integers(2, 4))
    t = int(r.integers(0, 4))
    if t == 0:
        ws = rand_words(r, X, int(r.integers(1, 9)), 3)
    else:
        ws = rand_tree(r, X, 9)
        if t == 2:
            ws.pop(int(r.integers(0, len(ws))))
        if t == 3:
            ws.append(ws[int(r.integers(0, len(ws)))] + tuple(int(a) for a in r.integers(0, X, size=2)))
        r.shuffle(ws)
        ws = [tuple(int(a) for a in w) for w in ws]
    if not ws:
        m.trivial()
        return
    m.note(words=ws, X=X)
    n = 1
    while 3 ** n < len(ws):
        n += 1
    c = komm.VariableToFixedCode(3, X, n, dict(zip(itertools.product((0, 1, 2), repeat=n), ws)))
    m.eq(c.is_fully_covering(), covers(ws, X), "is_fully_covering")
    m.eq(c.is_prefix_free(), prefix_free(ws), "is_prefix_free")
    m.eq(c.is_uniquely_encodable(), two_parses(ws) is None, "is_uniquely_encodable")
    m.tag(f"covering={covers(ws, X)}")


# ---------------------------------------------------------------- L04
@section("L04", 700, 9000)
def vf_roundtrip(m, r, i):
    X = int(r.integers(2, 5))
    Y = int(r.integers(2, 4))
    ws = rand_tree(r, X, int(r.integers(X, 14)))
    r.shuffle(ws)
    ws = [tuple(int(a) for a in w) for w in ws]
    n = 1
    while Y ** n < len(ws):
        n += 1
    n += int(r.integers(0, 2))
    keys = list(itertools.product(range(Y), repeat=n))
    kind = int(r.integers(0, 3))
    if kind == 0:
        c = komm.VariableToFixedCode.from_sourcewords(ws, target_cardinality=Y)
        n = c.target_block_size
        dm = dict(zip(itertools.product(range(Y), repeat=n), ws))
        m.ok(Y ** n >= len(ws) and (n == 1 or Y ** (n - 1) < len(ws)), "inferred target block size")
    else:
        idx = sorted(r.choice(len(keys), size=len(ws), replace=False).tolist())
        r.shuffle(idx)
        dm = {keys[j]: w for j, w in zip(idx, ws)}
        if kind == 1 and max(max(k) for k in dm) == Y - 1:
            c = komm.VariableToFixedCode.from_dec_mapping(dm)
        else:
            c = komm.VariableToFixedCode(Y, X, n, dm)
    m.note(mapping=dm)
    _vf(m, r, c, dm, X, n)
    p = rand_pmf(r, X)
    q = {w: float(np.prod([p[a] for a in w])) for w in ws}
    m.close(c.rate(p), n / sum(len(w) * v for w, v in q.items()), "rate = target block size / expected sourceword length", 1e-9)
    m.eq(c.size, len(ws), "size")
    m.ok(c.is_fully_covering() and c.is_prefix_free() and c.is_uniquely_encodable(), "predicates of a complete tree")


def _vf(m, r, c, dm, X, n):
    inv = {w: k for k, w in dm.items()}
    for _ in range(3):
        x = [int(a) for a in rand_seq(r, X, int(r.integers(0, 40)))]
        m.note(x=x)
        blocks, pos = [], 0
        while pos < len(x):
            hit = next((w for w in inv if tuple(x[pos:pos + len(w)]) == w), None)
            if hit is None:
                break
            blocks.append(inv[hit])
            pos += len(hit)
        y = np.asarray(c.encode(x)).astype(int).tolist()
        m.ok(len(y) % n == 0, "whole target blocks")
        head = [a for b in blocks for a in b]
        m.eq(y[:len(head)], head, "encode = target words of the successive parsed sourcewords")
        z = [int(a) for a in np.asarray(c.decode(y))]
        if pos == len(x):
            m.eq(y, head, "nothing appended when parsing ends on a word boundary")
            m.eq(z, x, "decode(encode(x)) = x")
        else:
            m.eq(len(y), len(head) + n, "one block completes the last incomplete word")
            m.eq(z[:len(x)], x, "decode(encode(x)) starts with x")
            m.tag("completed last word")
    ks = list(dm)
    t = [ks[int(j)] for j in r.integers(0, len(ks), size=int(r.integers(1, 10)))]
    flat = [a for k in t for a in k]
    m.eq(c.decode(flat), [a for k in t for a in dm[k]], "decode = concatenation of sourcewords")
    m.eq(c.encode(c.decode(flat)), flat, "encode(decode(y)) = y for concatenated target words")


@section("L04", 700, 9000)
def tunstall(m, r, i):
    S = int(r.integers(2, 7))
    p = rand_pmf(r, S)
    if i % 4 == 0:  # probabilities that are almost, but not quite, equal
        p = np.repeat(p[:-(-S // 2)] + 1e-3, 2)[:S] * (1 + 10.0 ** -r.uniform(7, 11) * r.permutation(np.linspace(-1, 1, S)))
        p = p / p.sum()
    n = int(r.integers(max(1, (S - 1).bit_length()), max(1, (S - 1).bit_length()) + 4))
    m.note(pmf=p.tolist(), n=n)
    if 2 ** (n - 1) < S and r.integers(0, 3) == 0:
        c = komm.TunstallCode(p)
    else:
        c = komm.TunstallCode(p, n)
    n = c.target_block_size
    ws = [tuple(int(a) for a in w) for w in c.sourcewords]
    m.ok(len(set(ws)) == len(ws) and prefix_free(ws), "Tunstall sourcewords are prefix-free")
    m.eq(sum(Fraction(1, S ** len(w)) for w in ws), Fraction(1), "Tunstall code is fully covering")
    m.ok(len(ws) <= 2 ** n, "no more words than target blocks")
    q = [Fraction(float(x)) for x in p]
    pr = lambda w: np.prod([q[a] for a in w])
    E = sum(len(w) * pr(w) for w in ws)
    # best tree: expected length = total probability of internal nodes; take them best-first
    K = (2 ** n - 1) // (S - 1)
    heap, best = [(-Fraction(1), 0)], Fraction(0)
    cnt = 1
    for _ in range(K):
        v, _d = heapq.heappop(heap)
        best += -v
        for x in q:
            heapq.heappush(heap, (v * x, cnt))
            cnt += 1
    m.close(float(E), float(best), "expected sourceword length is the largest possible", 1e-13)
    if float(E) > 0:
        m.close(c.rate(p), n / float(E), "rate", 1e-9)
    m.eq(list(c.dec_mapping), list(itertools.product((0, 1), repeat=n))[:len(ws)], "target words in order")
    m.eq(ws, sorted(ws), "sourcewords in lexicographic order")
    m.ok(c.is_fully_covering() and c.is_prefix_free() and c.is_uniquely_encodable(), "predicates of a Tunstall code")
    _vf(m, r, c, {tuple(k): tuple(int(a) for a in w) for k, w in c.dec_mapping.items()}, S, n)


@section("L04", 250, 3000)
def vf_refusals(m, r, i):
    X = int(r.integers(2, 4))
    ws = rand_tree(r, X, 8)
    t = i % 3
    if t == 0:
        ws.pop(int(r.integers(0, len(ws))))  # not covering
    elif t == 1:
        ws[-1] = ws[0]  # duplicate: not uniquely encodable
    else:
        ws.append(ws[0] + ws[-1])  # not uniquely encodable
    m.note(words=ws)
    n = 1
    while 2 ** n < len(ws):
        n += 1
    c = komm.VariableToFixedCode(2, X, n, dict(zip(itertools.product((0, 1), repeat=n), ws)))
    x = list(ws[0])
    m.refuses(lambda: c.encode(x), "encode with a code that is not fully covering or not uniquely encodable")
    m.refuses(lambda: c.decode([0] * n), "decode with a code that is not fully covering or not uniquely encodable")


# ---------------------------------------------------------------- L05
def ilog(n, b):
    k, p = 0, 1
    while p < n:
        p *= b
        k += 1
    return k


def lz_params(r):
    X = int(r.choice([2, 3, 4, 5, 7, 8, 16, 25, 27, 64, 125, 200, 256, 257, 300, 1000, 70000]))
    Y = int(r.choice([2, 2, 2, 3, 4, 5, 7, 10, 16, 64, 256]))
    return X, Y


def lz_source(r, X):
    n = int(r.choice([0, 1, 2, 3, 5, 8, 20, 60, 150]))
    A = X if r.integers(0, 2) else min(X, int(r.choice([2, 3, 4])))
    x = rand_seq(r, A, n)
    if A < X and r.integers(0, 2) and n:
        x = x + (X - A)
    return x


def widths_ok(m, tgt, Y, what):
    t = np.asarray(tgt)
    m.ok(t.size == 0 or (t.min() >= 0 and t.max() < Y), f"{what}: target symbols in range")


@section("L05", 900, 12000)
def lz77(m, r, i):
    X, Y = lz_params(r)
    S, L = int(r.choice([1, 2, 3, 4, 5, 8, 9, 25, 27, 32, 125])), int(r.choice([1, 2, 3, 4, 5, 8, 9, 16, 25]))
    buf = None if r.integers(0, 2) else [int(a) for a in rand_seq(r, X, S)]
    x = lz_source(r, X)
    m.note(S=S, L=L, X=X, Y=Y, buf=buf, x=x)
    c = komm.LempelZiv77Code(search_size=S, lookahead_size=L, source_cardinality=X, target_cardinality=Y, search_buffer=buf)
    m.eq(c.window_size, S + L, "window size")
    tok = c.source_to_tokens(x)
    win = list(buf if buf is not None else [0] * S) + [int(a) for a in x]
    pos = S
    for (p, l, s) in tok:
        m.ok(0 <= p < S and 0 <= l < L and 0 <= s < X, f"token {(p, l, s)} within the window")
        m.ok(all(win[pos + j] == win[pos - S + p + j] for j in range(l)), f"token {(p, l, s)} copies a true match")
        m.ok(pos + l < len(win), "token stays inside the source")
        m.eq(s, win[pos + l], "token symbol is the symbol following the match")
        lim = min(L, len(win) - pos) - 1
        best = max((next((j for j in range(lim) if win[a + j] != win[pos + j]), lim) for a in range(pos - S, pos)), default=0)
        m.eq(l, best, "match is the longest in the window")
        pos += l + 1
        if l > S:
            m.tag("self-overlapping match")
    m.eq(pos, len(win), "tokens cover the source")
    m.eq(c.tokens_to_source(tok), x, "tokens_to_source inverts source_to_tokens")
    tgt = c.tokens_to_target(tok)
    w = ilog(S, Y) + ilog(L, Y) + ilog(X, Y)
    m.eq(np.size(tgt), w * len(tok), "token word size is ceil(log S) + ceil(log L) + ceil(log |X|)")
    widths_ok(m, tgt, Y, "LZ77")
    m.eq(c.target_to_tokens(tgt), [list(t) for t in tok], "target_to_tokens inverts tokens_to_target")
    y = c.encode(x)
    m.arr(y, np.asarray(tgt, dtype=int), "encode = tokens_to_target(source_to_tokens)")
    m.eq(c.decode(y), x, "decode(encode(x)) = x")
    m.tag("empty" if x.size == 0 else "nonempty")


@section("L05", 900, 12000)
def lzss(m, r, i):
    X, Y = lz_params(r)
    S, L = int(r.choice([1, 2, 3, 4, 5, 8, 9, 25, 27, 32, 125])), int(r.choice([1, 2, 3, 4, 5, 8, 9, 16, 25]))
    buf = None if r.integers(0, 2) else [int(a) for a in rand_seq(r, X, S)]
    x = lz_source(r, X)
    m.note(S=S, L=L, X=X, Y=Y, buf=buf, x=x)
    c = komm.LempelZivSSCode(search_size=S, lookahead_size=L, source_cardinality=X, target_cardinality=Y, search_buffer=buf)
    pw, lw, xw = ilog(S, Y), ilog(L, Y), ilog(X, Y)
    be = -(-(1 + pw + lw) // (1 + xw))
    m.eq(c.break_even, be, "break-even point")
    m.eq(c.window_size, S + L, "window size")
    tok = c.source_to_tokens(x)
    win = list(buf if buf is not None else [0] * S) + [int(a) for a in x]
    pos, bits = S, 0
    for t in tok:
        lim = min(L, len(win) - pos)
        best = max((next((j for j in range(lim) if win[a + j] != win[pos + j]), lim) for a in range(pos - S, pos)), default=0)
        if t[0] == 1:
            _, p, l = t
            m.ok(1 <= p <= S and 1 <= l <= L, f"reference {t} within the window")
            m.ok(pos + l <= len(win) and all(win[pos + j] == win[pos - p + j] for j in range(l)), f"reference {t} copies a true match")
            m.eq(l, best, "match is the longest in the window")
            m.ok(l >= be, f"reference {t} is worth encoding (break-even {be})")
            pos += l
            bits += 1 + pw + lw
            m.tag("reference")
        else:
            m.eq(t[0], 0, "literal flag")
            m.eq(t[1], win[pos], "literal symbol")
            m.ok(best < be, f"literal although a match of length {best} >= break-even {be} exists")
            pos += 1
            bits += 1 + xw
    m.eq(pos, len(win), "tokens cover the source")
    m.eq(c.tokens_to_source(tok), x, "tokens_to_source inverts source_to_tokens")
    tgt = c.tokens_to_target(tok)
    m.eq(np.size(tgt), bits, "flag plus words of the documented sizes")
    widths_ok(m, tgt, Y, "LZSS")
    m.eq(c.target_to_tokens(tgt), [list(t) for t in tok], "target_to_tokens inverts tokens_to_target")
    y = c.encode(x)
    m.arr(y, np.asarray(tgt, dtype=int), "encode = tokens_to_target(source_to_tokens)")
    m.eq(c.decode(y), x, "decode(encode(x)) = x")


@section("L05", 900, 12000)
def lz78(m, r, i):
    X, Y = lz_params(r)
    x = lz_source(r, X)
    m.note(X=X, Y=Y, x=x)
    c = komm.LempelZiv78Code(X, Y)
    tok = c.source_to_tokens(x)
    words, pos = [()], 0
    src = [int(a) for a in x]
    bits = 0
    for t, (p, s) in enumerate(tok):
        m.ok(0 <= p < len(words), f"token {t} points into the dictionary")
        w = words[p]
        m.eq(src[pos:pos + len(w)], list(w), f"token {t} prefix matches")
        pos += len(w)
        bits += ilog(t + 1, Y)
        if s == -1:
            m.eq(t, len(tok) - 1, "only the last token may lack a symbol")
            m.eq(pos, len(src), "an open last token ends the source")
            m.tag("open last token")
            break
        m.eq(s, src[pos], f"token {t} symbol")
        m.ok(w + (s,) not in words, f"token {t} is the longest match")
        words.append(w + (s,))
        pos += 1
        bits += ilog(X, Y)
    m.eq(pos, len(src), "tokens cover the source")
    m.eq(c.tokens_to_source(tok), x, "tokens_to_source inverts source_to_tokens")
    tgt = c.tokens_to_target(tok)
    m.eq(np.size(tgt), bits, "pointer and symbol words of the documented sizes")
    widths_ok(m, tgt, Y, "LZ78")
    m.eq(c.target_to_tokens(tgt), [list(t) for t in tok], "target_to_tokens inverts tokens_to_target")
    y = c.encode(x)
    m.arr(y, np.asarray(tgt, dtype=int), "encode = tokens_to_target(source_to_tokens)")
    m.eq(c.decode(y), x, "decode(encode(x)) = x")


@section("L05", 900, 12000)
def lzw(m, r, i):
    X, Y = lz_params(r)
    X = min(X, 1000)
    x = lz_source(r, X)
    m.note(X=X, Y=Y, x=x)
    c = komm.LempelZivWelchCode(X, Y)
    # reference encoder
    dic, out, w = {(s,): s for s in range(X)}, [], ()
    for a in map(int, x):
        if w + (a,) in dic:
            w += (a,)
            continue
        out.append((dic[w], ilog(len(dic), Y)))
        dic[w + (a,)] = len(dic)
        w = (a,)
    if w:
        out.append((dic[w], ilog(len(dic), Y)))
    flat = []
    for v, k in out:
        word = []
        for _ in range(k):
            v, d = divmod(v, Y)
            word.append(d)
        flat += word[::-1]
    y = c.encode(x)
    m.eq(y, flat, "LZW pointers in words of ceil(log(dictionary size)) symbols")
    widths_ok(m, y, Y, "LZW")
    m.eq(c.decode(y), x, "decode(encode(x)) = x")


@section("L05", 24, 200)
def lz_long(m, r, i):
    X, Y = int(r.choice([2, 4, 256])), int(r.choice([2, 3]))
    n = int(r.integers(2000, 6000))
    x = rand_seq(r, X, n)
    m.note(X=X, Y=Y, n=n, head=x[:20])
    for c in (komm.LempelZiv78Code(X, Y), komm.LempelZivWelchCode(X, Y),
              komm.LempelZiv77Code(search_size=300, lookahead_size=40, source_cardinality=X, target_cardinality=Y),
              komm.LempelZivSSCode(search_size=300, lookahead_size=40, source_cardinality=X, target_cardinality=Y)):
        m.arr(c.decode(c.encode(x)), x, f"{type(c).__name__} round trip of {n} symbols")
    m.refuses(lambda: komm.LempelZivWelchCode(X, Y).encode([X]), "symbol outside the source alphabet")
    m.refuses(lambda: komm.LempelZiv78Code(X, Y).encode([-1]), "symbol outside the source alphabet")


# ---------------------------------------------------------------- L06
FIB = [1, 2]
while FIB[-1] < 1 << 64:
    FIB.append(FIB[-1] + FIB[-2])


def zeck(n):
    bits, started = [], False
    for f in reversed(FIB):
        if f <= n:
            n -= f
            bits.append(1)
            started = True
        elif started:
            bits.append(0)
    return bits[::-1] + [1]


def shape_seq(r, xs):
    t = int(r.integers(0, 3))
    if t == 0:
        return [int(a) for a in xs]
    if t == 1 or (len(xs) and max(xs) > 255):
        return np.array(xs, dtype=np.int64)
    return np.array(xs, dtype=np.uint8)


@section("L06", 700, 9000)
def fibonacci(m, r, i):
    c = komm.FibonacciCode()
    n = int(r.integers(0, 12))
    if i % 3 == 0:
        xs = [int(v) for v in r.integers(1, 60, size=n)]
    elif i % 3 == 1:
        xs = [int(2 ** float(e)) for e in r.uniform(0, 62.9, size=n)]
    else:
        xs = [min(2**63 - 1, max(1, FIB[int(j)] + int(d))) for j, d in zip(r.integers(0, 90, size=n), r.integers(-1, 2, size=n))]
    m.note(xs=xs)
    want = [b for v in xs for b in zeck(v)]
    y = c.encode(shape_seq(r, xs))
    m.eq(y, want, "Zeckendorf words closed by a one")
    m.eq(c.decode(y), xs, "decode(encode(x)) = x")
    for v in xs[:3]:
        w = zeck(v)
        m.ok(w[-2:] == [1, 1] and all(not (a and b) for a, b in zip(w[:-2], w[1:-1])), "oracle self-check: 11 only at the end")
    if want:
        m.refuses(lambda: c.decode(want[:-1]), "incomplete codeword")
    m.refuses(lambda: c.encode(xs + [0]), "zero")
    m.refuses(lambda: c.encode([-int(r.integers(1, 99))] + xs), "negative integer")
    m.refuses(lambda: c.decode(want + [2, 1, 1]), "non-binary symbol")


@section("L06", 500, 6000)
def unary(m, r, i):
    c = komm.UnaryCode()
    n = int(r.integers(0, 12))
    hi = int(r.choice([2, 5, 30, 300, 3000]))
    xs = [int(v) for v in r.integers(0, hi, size=n)]
    m.note(xs=xs)
    want = [b for v in xs for b in [1] * v + [0]]
    y = c.encode(shape_seq(r, xs))
    m.eq(y, want, "unary words")
    m.eq(c.decode(y), xs, "decode(encode(x)) = x")
    m.refuses(lambda: c.decode(want + [1]), "incomplete codeword")
    m.refuses(lambda: c.encode(xs + [-1]), "negative integer")
    m.refuses(lambda: c.decode([3] + want), "non-binary symbol")


@section("L06", 1, 1, exhaustive=True)
def first_codewords(m, r, i):
    for c, lo, hi in ((komm.FibonacciCode(), 1, 3000), (komm.UnaryCode(), 0, 400)):
        ws = [tuple(np.asarray(c.encode([v])).tolist()) for v in range(lo, hi)]
        srt = sorted(ws)
        m.ok(all(b[:len(a)] != a for a, b in zip(srt, srt[1:])), f"{type(c).__name__}: codewords are prefix-free")
        m.arr(c.decode([b for w in ws[:300] for b in w]), np.arange(lo, lo + len(ws[:300])), "all words concatenated")
