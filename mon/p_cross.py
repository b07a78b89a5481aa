"""X01-X04: purity, blockwise action, representations, random reproducibility (cross-cutting)."""
import math
import os
import pickle
import re
import struct
import zlib

import numpy as np

import komm

from . import catalog, gconv, gen, observe, p_channels, p_conv, p_mapping, p_sources
from .catalog import FAMILIES, Op, entry, fingerprint, image, new_seed, raised, same
from .core import SECTIONS, Monitor, Violation, rule, section, short

rule("X01", "(a) every workload of every other monitor re-run with its oracle muted while each public call is wrapped: arguments fingerprinted "
     "before/after, call repeated, public array attributes and all earlier results checked for change; (b) random interleaved histories over "
     "several similar objects compared with the same call made first thing in a pristine forked process; "
     "(c) calls on arguments of thousands of elements, repeated, relaid in memory, and after their results and arguments were overwritten.")
rule("X02", "Random batches (leading dimensions, block counts, dtypes, lists, memory orders) of every blockwise operation compared with per-block "
     "calls; non-multiple last dimensions must be refused.")
rule("X03", "Random objects of every class: eval(repr(obj)) must have the same representation and give the same results on drawn operations.")
rule("X04", "Random objects and seeds: recorded outputs replayed bit for bit, streams of different seeds and isolated generators, state of every "
     "generator (library, object, NumPy legacy) fingerprinted around deterministic and random calls.")


# ---------------------------------------------------------------- X01 (a): purity of every recorded workload
class Purity:
    LIMIT = 300
    RANDOM = re.compile(r"^(\w*Channel\.(transmit|__call__)|DiscreteMemorylessSource\.emit|MarkovChain\.simulate\w*|ViterbiStreamDecoder\.decode"
                        r"|MealyMachine\.viterbi_streaming)$")

    def __init__(self):
        self.bad, self.calls, self.repeats, self.kept = [], 0, 0, []

    @staticmethod
    def attrs(args):
        if not args or not type(args[0]).__module__.startswith("komm") or isinstance(args[0], type):
            return {}
        d = getattr(args[0], "__dict__", {})
        return {k: fingerprint(v) for k, v in d.items() if not k.startswith("_") and isinstance(v, (np.ndarray, list, tuple, int, float))}

    def __call__(self, label, fn, args, kwargs):
        self.calls += 1
        if self.calls > self.LIMIT:
            return fn(*args, **kwargs)
        own = len(args) > 0 and type(args[0]).__module__.startswith("komm")
        data = args[1:] if own else args
        if label == "MealyMachine.viterbi_streaming":
            data, kwargs_seen = args[1:2], {}  # the memory is documented as carried state
        else:
            kwargs_seen = kwargs
        init = label.endswith("__init__")
        before = fingerprint((data, kwargs_seen))
        pub = {} if init else self.attrs(args)
        kept = [fingerprint(k[5]) for k in self.kept]
        try:
            res = fn(*args, **kwargs)
        finally:
            if fingerprint((data, kwargs_seen)) != before:
                self.bad.append(f"{label} modified its arguments: now {short((data, kwargs), 300)}")
            if not init:
                now = self.attrs(args)
                ch = [k for k in pub if k in now and now[k] != pub[k]]
                if ch and not self.RANDOM.match(label) and label.split(".")[0] != "ViterbiStreamDecoder":
                    self.bad.append(f"{label} changed the object's {ch}")
        for k, f in zip(self.kept, kept):
            if isinstance(k[5], np.ndarray) and fingerprint(k[5]) != f:
                self.bad.append(f"array returned by {k[0]}{k[1]} was changed by a later call of {label}{short(data, 120)}")
        if init or self.RANDOM.match(label) or hasattr(res, "__next__"):
            return res
        img = image(res)
        self.repeats += 1
        try:
            again = image(fn(*args, **kwargs))
        except Exception as e:
            self.bad.append(f"{label}{short(data, 200)} repeated: raised {type(e).__name__} {e}, first result {short(res, 150)}")
            return res
        if not same(img, again):
            self.bad.append(f"{label}{short(data, 200)} repeated: first {short(img, 150)} then {short(again, 150)}")
        if not same(image(res), img):
            self.bad.append(f"{label}{short(data, 200)}: repeating the call changed the array returned first")
        if len(self.kept) < 60:
            self.kept.append((label, short(data, 120), fn, args, kwargs, res, img, before))
        return res

    def finish(self):
        for label, d, fn, args, kwargs, res, img, before in reversed(self.kept[-25:]):
            data = args[1:] if args and type(args[0]).__module__.startswith("komm") else args
            if fingerprint((data, kwargs)) != before:
                continue  # the workload itself reused the buffer
            if not same(image(res), img):
                continue  # the workload wrote into the array it was given (a call changing it was reported above)
            try:
                now = image(fn(*args, **kwargs))
            except Exception as e:
                self.bad.append(f"{label}{d} at the end of the history: raised {type(e).__name__}")
                continue
            if not same(img, now):
                self.bad.append(f"{label}{d} after other calls: first {short(img, 150)} now {short(now, 150)}")


SKIP = {"all_small_graphs", "exhaustive_small"}


def pool():
    return [s for p in sorted(SECTIONS) if not p.startswith("X") for s in SECTIONS[p] if s.name not in SKIP]


def run_muted(m, s, j, hook):
    q = np.random.default_rng([m.seed, zlib.crc32(f"{s.prop}/{s.name}".encode()), j])
    komm.global_rng.set(np.random.default_rng([m.seed, j, 7]))
    mm = Monitor(s.prop, "quick", m.seed, muted=True)
    mm._section = s.name
    depth, observe._depth = observe._depth, 0
    observe.HOOK = hook
    try:
        s.fn(mm, q, j)
    except (Violation, Exception):
        pass
    finally:
        observe.HOOK = None
        observe._depth = depth
    return mm


@section("X01", 1200, 12000)
def workloads(m, r, i):
    zygote()
    P = pool()
    s = P[i % len(P)]
    j = int(r.integers(0, max(1, s.count("quick"))))
    h = Purity()
    mm = run_muted(m, s, j, h)
    m.note(workload=f"{s.prop}/{s.name}", case=j, inputs=dict(mm._notes))
    h.finish()
    m.tag("calls fingerprinted", min(h.calls, h.LIMIT))
    m.tag("calls repeated", h.repeats)
    m.compared[m._section] += h.repeats
    m.ok(not h.bad, lambda: f"[{s.prop}/{s.name} case {j}] " + h.bad[0])
    if h.calls == 0:
        m.trivial()


# ---------------------------------------------------------------- X01 (b): histories against a pristine process
_ZYG = {}


def zygote():
    """A process forked before this worker made any call; it forks a fresh child per request."""
    if os.getpid() in _ZYG:
        return _ZYG[os.getpid()]
    a, b = os.pipe()
    c, d = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(b)
            os.close(c)
            _serve(a, d)
        finally:
            os._exit(0)
    os.close(a)
    os.close(d)
    _ZYG[os.getpid()] = (b, c)
    return b, c


def _read(fd, n):
    buf = b""
    while len(buf) < n:
        x = os.read(fd, n - len(buf))
        if not x:
            return None
        buf += x
    return buf


def _serve(rd, wr):
    import signal
    signal.setitimer(signal.ITIMER_PROF, 0)
    while True:
        h = _read(rd, 4)
        if h is None:
            return
        req = pickle.loads(_read(rd, struct.unpack("<I", h)[0]))
        pid = os.fork()
        if pid == 0:
            try:
                signal.alarm(60)
                data = pickle.dumps(_pristine(*req))
            except BaseException as e:
                data = pickle.dumps(("broken", f"{type(e).__name__}: {e}"))
            data = struct.pack("<I", len(data)) + data
            while data:
                data = data[os.write(wr, data):]
            os._exit(0)
        _, st = os.waitpid(pid, 0)
        if st != 0:
            data = pickle.dumps(("broken", f"status {st}"))
            os.write(wr, struct.pack("<I", len(data)) + data)


def _pristine(seed, small, fam, k):
    """Outcome of operation k of the object, as the first call ever made on a fresh object in a fresh process."""
    e = entry(np.random.default_rng(seed), small, FAMILIES[fam])
    with np.errstate(all="ignore"):
        o = e.make()
        kind, v = raised(lambda: e.ops[k].apply(o))
    return kind, image(v)


def ask(req):
    wr, rd = zygote()
    data = pickle.dumps(req)
    os.write(wr, struct.pack("<I", len(data)) + data)
    h = _read(rd, 4)
    return pickle.loads(_read(rd, struct.unpack("<I", h)[0]))


def det_ops(e):
    return [k for k, o in enumerate(e.ops) if not o.random]


@section("X01", 400, 5000)
def histories(m, r, i):
    zygote()
    small = bool(r.integers(0, 2))
    same_family = bool(r.integers(0, 3))
    fam = i % len(FAMILIES)
    objs = []
    for t in range(int(r.integers(2, 5))):
        f = fam if same_family or t == 0 else int(r.integers(0, len(FAMILIES)))
        sd = catalog.new_seed(r)
        e = entry(np.random.default_rng(sd), small, FAMILIES[f])
        objs.append((sd, f, e, e.make()))
    m.note(objects=[o[2].desc for o in objs])
    first, raw, log, mutated = {}, [], [], []
    for step in range(int(r.integers(8, 25))):
        a = int(r.integers(0, len(objs)))
        sd, f, e, o = objs[a]
        if step and r.integers(0, 4) == 0 and log:
            a, k = log[int(r.integers(0, len(log)))]
            sd, f, e, o = objs[a]
        else:
            k = int(r.integers(0, len(e.ops)))
        op = e.ops[k]
        kind, v = raised(lambda: op.apply(o, mutated))
        log.append((a, k))
        m.ok(not mutated, lambda: f"{objs[a][2].desc}: {mutated[0][0]} modified its arguments to {mutated[0][1][:200]}")
        if op.random:
            continue
        img = (kind, image(v))
        raw.append((a, k, v, img))
        hist = [f"#{x}.{objs[x][2].ops[y].name}" for x, y in log[:-1]]
        if (a, k) in first:
            m.ok(same(first[a, k], img), lambda: f"object {a} ({e.desc}): {op} gave {short(first[a, k], 200)} then {short(img, 200)} after {hist[-8:]}")
        else:
            first[a, k] = img
    for a, k, v, img in raw:
        if isinstance(v, np.ndarray):
            m.ok(same(image(v), img[1]), lambda: f"array returned by {objs[a][2].ops[k]} of {objs[a][2].desc} was changed by a later call")
    keys = list(first)
    r.shuffle(keys)
    for a, k in keys[:10]:
        a, k = int(a), int(k)
        sd, f, e, o = objs[a]
        want = ask((sd, small, f, k))
        if want[0] == "broken":
            raise OSError(f"pristine process: {want[1]}")
        m.ok(same(first[a, k], want), lambda: f"object {a} ({e.desc}): {e.ops[k]} gave {short(first[a, k], 200)} in a history "
             f"but {short(want, 200)} in a fresh process; history {[f'#{x}.{objs[x][2].ops[y].name}' for x, y in log][:30]}")
        m.tag("pristine-process comparisons")


@section("X01", 150, 2000)
def functions(m, r, i):
    """Module-level functions: arguments intact, repeated and interleaved results equal."""
    ops = catalog.static_ops(r)
    seen = {}
    for _ in range(30):
        k = int(r.integers(0, len(ops)))
        name, fn, args = ops[k]
        fp = fingerprint(args)
        res = raised(lambda: fn(*args))
        m.ok(fingerprint(args) == fp, lambda: f"{name} modified its arguments: {short(args)}")
        img = image(res)
        if k in seen:
            m.ok(same(seen[k][0], img), lambda: f"{name}{short(args, 200)}: {short(seen[k][0], 150)} then {short(img, 150)}")
        else:
            seen[k] = (img, res[1])
    for k, (img, v) in seen.items():
        m.ok(same(img[1], image(v)), lambda: f"array returned by {ops[k][0]} changed later")


@section("X01", 200, 3000)
def constructors(m, r, i):
    """Building an object leaves the caller's arrays alone, and later changes nothing in them either."""
    dt = gen.DTYPES[int(r.integers(0, len(gen.DTYPES)))]
    k, n = int(r.integers(1, 4)), int(r.integers(1, 4))
    from . import ref
    G = ref.rand_full_rank(r, k, k + n).astype(dt)
    Pm = r.integers(0, 2, size=(k, n)).astype(dt)
    L = np.array([[0, 0], [1, 1], [0, 1], [1, 0]], dtype=dt)
    W = r.normal(size=(4, 2))
    T = r.integers(0, 3, size=(3, 2))
    pm = r.dirichlet(np.ones(4))
    tm = r.dirichlet(np.ones(3), size=3)
    ff = np.array([[int(r.integers(1, 8)) for _ in range(2)]])
    b = r.integers(0, 2, size=7).astype(dt)
    lv, th = np.array([-1.0, 0.0, 2.0]), np.array([-0.5, 1.0])
    table = [
        ("BlockCode(G)", lambda x: komm.BlockCode(generator_matrix=x), G, ["coset_leaders", "codewords"]),
        ("BlockCode(H)", lambda x: komm.BlockCode(check_matrix=x), G, ["codewords", "minimum_distance"]),
        ("SystematicBlockCode", komm.SystematicBlockCode, Pm, ["codewords", "coset_leaders"]),
        ("Labeling", komm.Labeling, L, []), ("ProductLabeling.from_matrices", komm.ProductLabeling.from_matrices, L, []),
        ("Constellation", komm.Constellation, W, ["mean", "minimum_distance"]),
        ("Constellation", komm.Constellation, W + 1j, ["mean", "mean_energy"]),
        ("MealyMachine", lambda x: komm.MealyMachine(x, x), T, []), ("MooreMachine", lambda x: komm.MooreMachine(x, x[:, 0]), T, []),
        ("DiscreteMemorylessSource", komm.DiscreteMemorylessSource, pm, ["entropy_rate"]),
        ("DiscreteMemorylessChannel", komm.DiscreteMemorylessChannel, tm, ["capacity"]),
        ("MarkovChain", komm.MarkovChain, tm, ["stationary_distribution", "communicating_classes"]),
        ("HuffmanCode", komm.HuffmanCode, pm, []), ("FanoCode", komm.FanoCode, pm, []), ("ShannonCode", komm.ShannonCode, pm, []),
        ("TunstallCode", lambda x: komm.TunstallCode(x, 4), pm, []), ("ConvolutionalCode", komm.ConvolutionalCode, ff, ["free_distance"]),
        ("LowRateConvolutionalCode", komm.LowRateConvolutionalCode, ff[0], ["free_distance"]),
        ("BinarySequence", lambda x: komm.BinarySequence(bit_sequence=x), b, ["autocorrelation"]),
        ("ComplexSequence", komm.ComplexSequence, pm + 1j, ["autocorrelation"]),
        ("PolarCode", lambda x: komm.PolarCode(3, x), r.permutation(8)[:4], ["codewords"]),
        ("ScalarQuantizer", lambda x: komm.ScalarQuantizer(x, th), lv, []), ("ScalarQuantizer", lambda x: komm.ScalarQuantizer(lv, x), th, []),
    ]
    for name, f, x, calls in table:
        if r.integers(0, 2):
            x = np.asfortranarray(x)
        fp = fingerprint(x)
        kind, o = raised(lambda: f(x))
        m.ok(fingerprint(x) == fp, lambda: f"{name} modified the array it was built from: now {short(x)}")
        if kind == "ok":
            repr(o)
            for c in calls:
                raised(lambda: getattr(o, c)())
            m.ok(fingerprint(x) == fp, lambda: f"{name}: {calls} modified the array it was built from: now {short(x)}")
            kind2, o2 = raised(lambda: f(np.array(x)))
            m.eq((kind2, repr(o2)), ("ok", repr(o)), f"{name} built twice")
    m.note(dtype=str(np.dtype(dt)), G=G)


# ---------------------------------------------------------------- X01 (c): arguments large enough for any size-dependent path
def large_call(r, fam):
    """(label, call of fresh objects on the argument, argument)."""
    n = int(10 ** r.uniform(3.62, 4.85))
    two = int(r.integers(0, 2))
    s = new_seed(r)
    g = lambda: np.random.default_rng(s)

    def ints(hi, k):
        dt = r.choice([np.int64, np.int64, np.int32, np.uint8, np.int8, np.uint64] + ([bool] if hi == 2 else []))
        x = r.integers(0, hi, size=k).astype(dt)
        return x.reshape(2, -1) if two and k % 2 == 0 else x

    def reals(k, cx=False):
        x = r.normal(size=k).astype(r.choice([np.float64, np.float64, np.float32]))
        x = x + 1j * r.normal(size=k) if cx else x
        return x.reshape(2, -1) if two and k % 2 == 0 else x
    if fam == "channel":
        t = int(r.integers(0, 5))
        p = float(r.uniform(0, 1))
        if t == 4:
            k = int(r.integers(2, 9))
            W = r.dirichlet(np.ones(int(r.integers(2, 9))), size=k)
            return "DiscreteMemorylessChannel.transmit", lambda x: komm.DiscreteMemorylessChannel(W, rng=g()).transmit(x), ints(k, n)
        if t == 3:
            x = reals(n, bool(r.integers(0, 2))) if r.integers(0, 3) else ints(5, n)
            return "GaussianChannel.transmit", lambda x: komm.GaussianChannel(p, rng=g()).transmit(x), x
        C = [komm.BinarySymmetricChannel, komm.BinaryErasureChannel, komm.ZChannel][t]
        return f"{C.__name__}.transmit", lambda x: C(p, rng=g()).transmit(x), ints(2, n)
    if fam == "constellation":
        C, X = p_mapping.rand_con(r, big=False)[:2]
        X = np.asarray(X)
        M, N = X.shape
        n -= n % (2 * N)
        t = int(r.integers(0, 4))
        if t == 0:
            return f"{type(C).__name__}.indices_to_symbols", C.indices_to_symbols, r.integers(0, M, size=n)
        n = min(n, 2 * N * (2_000_000 // (2 * N * M * N)))
        sc = math.sqrt(float(np.mean(np.abs(X) ** 2))) or 1.0
        y = reals(n, bool(np.iscomplexobj(X))) * sc
        f = [C.closest_indices, C.closest_symbols, lambda y: C.posteriors(y, sc ** 2 / 3)][t - 1]
        return f"{type(C).__name__}.{['closest_indices', 'closest_symbols', 'posteriors'][t - 1]}", f, y
    if fam == "labeling":
        L, W, _ = p_mapping.rand_labeling(r, mmax=5)
        k, M = len(W[0]), len(W)
        t = int(r.integers(0, 3))
        if t == 0:
            return "labeling.indices_to_bits", L.indices_to_bits, ints(M, n)
        if t == 1:
            return "labeling.bits_to_indices", L.bits_to_indices, ints(2, 2 * k * (n // k // 2))
        return "labeling.marginalize", L.marginalize, np.abs(reals(2 * M * (n // M // 2))) + 1e-3
    if fam == "block":
        sp = gen.rand_spec(r, kmax=6, mmax=6)
        t = int(r.integers(0, 3))
        if t == 2:
            V = np.asarray(sp.code.encode(r.integers(0, 2, size=(n // sp.n + 1, sp.k))))
            return "inverse_encode", sp.code.inverse_encode, V.astype(r.choice([np.int64, np.uint8, np.float64, bool]))
        return (["encode", "check"][t], [sp.code.encode, sp.code.check][t], ints(2, 2 * [sp.k, sp.n][t] * (n // sp.n // 2 + 1)))
    if fam == "conv":
        c = gconv.any_conv(r, max_nu=4, kmax=3, nmax=3, max_states=32)
        k = c.code.num_input_bits
        return "ConvolutionalCode.encode", c.code.encode, ints(2, k * (n // k))
    if fam == "machine":
        S, X, Y, T, O = p_conv.rand_machine(r)
        f = komm.MealyMachine(T, O)
        return "MealyMachine.process", lambda x: f.process(x, 0), r.integers(0, X, size=n)
    if fam == "decoder":
        d, c, soft = catalog.decoder(r, False)
        N = c.length
        nb = min(n // N, 150) + 1
        if soft:
            return f"{type(d).__name__}.decode", d.decode, r.normal(size=nb * N).astype(r.choice([np.float64, np.float64, np.float32]))
        return f"{type(d).__name__}.decode", d.decode, r.integers(0, 2, size=nb * N).astype(r.choice([np.int64, np.uint8, np.int32]))
    if fam == "quantizer":
        L = int(r.integers(2, 40))
        q = komm.UniformQuantizer(L, float(r.uniform(0.1, 2))) if r.integers(0, 2) else komm.ScalarQuantizer(
            *(lambda z: (z[0::2], z[1::2]))(np.sort(r.choice(400, size=2 * L - 1, replace=False)) / 40.0 - 5))
        t = int(r.integers(0, 2))
        x = reals(n) * 3 if r.integers(0, 3) else ints(6, n)
        return ["digitize", "quantize"][t], [q.digitize, q.quantize][t], x
    if fam == "lossless":
        e = [catalog.e_fv, catalog.e_vf, catalog.e_lz][int(r.integers(0, 3))](r, False)
        c = e.make()
        n = min(n, 6000)
        k = getattr(c, "source_block_size", 1)
        x = r.integers(0, c.source_cardinality, size=k * (n // k)).astype(r.choice([np.int64, np.int64, np.uint8, np.int32]))
        if r.integers(0, 2):
            try:
                return f"{type(c).__name__}.decode", c.decode, np.array(c.encode(x))
            except Exception:
                pass
        return f"{type(c).__name__}.encode", c.encode, x
    if fam == "integer":
        C = [komm.UnaryCode, komm.FibonacciCode][int(r.integers(0, 2))]
        x = r.integers(1, 30, size=n)
        if r.integers(0, 2):
            return f"{C.__name__}.decode", C().decode, np.array(C().encode(x))
        return f"{C.__name__}.encode", C().encode, x
    if fam == "pulse":
        p = [komm.RectangularPulse(0.6), komm.GaussianPulse(0.8), komm.ManchesterPulse(), komm.SincPulse(), komm.RaisedCosinePulse(0.3),
             komm.RaisedCosinePulse(0.3).root(), komm.BeaulieuPulse(0.4)][int(r.integers(0, 7))]
        nm = ["waveform", "spectrum"][int(r.integers(0, 2))]
        return f"{type(p).__name__}.{nm}", getattr(p, nm), reals(n) * 4 if r.integers(0, 3) else ints(6, n).astype(int)
    if fam == "sequence":
        L = int(r.integers(64, 3000)) | 1
        q = [lambda: komm.ZadoffChuSequence(L, 1), lambda: komm.LFSRSequence.maximum_length_sequence(9),
             lambda: komm.WalshHadamardSequence(1024, "sequency", 77)][int(r.integers(0, 3))]()
        nm = ["autocorrelation", "cyclic_autocorrelation"][int(r.integers(0, 2))]
        return nm, getattr(q, nm), r.integers(-3 * L, 3 * L, size=n)
    if fam == "chain":
        k = int(r.integers(2, 12))
        t = int(r.integers(0, 3))
        p = r.dirichlet(np.ones(n))
        return [("DiscreteMemorylessSource", lambda p: komm.DiscreteMemorylessSource(p).entropy_rate(), p),
                ("MarkovChain", lambda P: komm.MarkovChain(P).stationary_distribution(), r.dirichlet(np.ones(70), size=70)),
                ("entropy", komm.entropy, p)][t]
    t = int(r.integers(0, 4))
    if t == 0:
        return "bits_to_int", komm.bits_to_int, r.integers(0, 2, size=(n // 20, 20))
    if t == 1:
        return "int_to_bits", lambda x: komm.int_to_bits(x, 16), r.integers(0, 1 << 16, size=n)
    if t == 2:
        return "gaussian_q", komm.gaussian_q, reals(n)
    return "gaussian_q_inv", komm.gaussian_q_inv, r.uniform(1e-9, 1 - 1e-9, size=n)


LARGE = ["channel", "constellation", "labeling", "block", "conv", "machine", "decoder", "quantizer", "lossless", "integer", "pulse", "sequence",
         "chain", "util", "channel"]


@section("X01", 150, 1500, scaled=False)
def large_arguments(m, r, i):
    label, call, x = large_call(r, LARGE[i % len(LARGE)])
    kind = int(r.integers(0, 4))
    if kind == 1 and x.ndim == 2:
        x = np.asfortranarray(x)
    elif kind == 2:  # a strided view of a larger buffer
        buf = np.zeros((*x.shape[:-1], 2 * x.shape[-1]), x.dtype)
        buf[..., ::2] = x
        x = buf[..., ::2]
    m.note(call=label, shape=x.shape, dtype=str(x.dtype), kind=kind)
    keep = x.copy()
    try:
        first = call(x)
    except Exception as e:
        m.ok(np.array_equal(x, keep), f"{label} (raising {type(e).__name__}) left its argument alone")
        m.tag(f"raises {type(e).__name__}")
        return m.trivial()
    m.ok(np.array_equal(x, keep), f"{label} left its argument alone")
    img = image(first)
    m.ok(same(image(call(x)), img), f"{label} repeated")
    x2 = np.ascontiguousarray(keep)
    m.ok(same(image(call(x2)), img), f"{label} on an equal array laid out differently")
    if isinstance(first, np.ndarray) and first.size and first.flags.writeable and not np.may_share_memory(first, x):
        first[...] = 0
        m.ok(same(image(call(x)), img), f"{label} after its result was overwritten")
    x2[...] = 0
    m.ok(same(image(call(x)), img), f"{label} after an equal argument was overwritten")
    m.tag(label)


# ---------------------------------------------------------------- X02: blockwise action
BLOCKY = [f for f in FAMILIES if f.__name__ in ("e_block", "e_terminated", "e_decoder", "e_labeling", "e_constellation")]


@section("X02", 700, 12000)
def blockwise(m, r, i):
    e = entry(r, bool(r.integers(0, 4) == 0), BLOCKY[i % len(BLOCKY)])
    o = e.make()
    for b in e.blocks:
        extra = getattr(b, "extra", ())
        op = getattr(o, b.name)
        lead = tuple(int(x) for x in r.integers(1, 4, size=int(r.integers(0, 4))))
        per = int(r.integers(1, 5))
        cnt = per * int(np.prod(lead))
        if cnt > 40:
            lead = lead[:1]
            cnt = per * int(np.prod(lead))
        X = np.asarray(b.draw(r, cnt))
        single = [np.asarray(op(x, *extra)) for x in X]
        for x, y in zip(X, single):
            m.shape(y, (b.outb,), f"{e.desc}.{b.name} of one block")
        want = np.array([y.reshape(b.outb) for y in single]).reshape(*lead, per * b.outb)
        Y = X.reshape(*lead, per * b.inb)
        m.note(obj=e.desc, op=b.name, lead=lead, blocks=per, input=Y, extra=extra)
        forms = [Y, Y.tolist()]
        if b.integer:
            if Y.size == 0 or Y.max() <= 127:
                forms += [gen.cast(r, Y), gen.cast(r, Y)]
            if Y.size == 0 or Y.max() <= 1:
                forms.append(Y.astype(bool) if b.name != "indices_to_bits" and b.name != "indices_to_symbols" else Y)
        else:
            forms += [np.asfortranarray(Y), np.ascontiguousarray(Y[..., ::-1])[..., ::-1]]
        forms.append(totuple(Y))
        for x in forms:
            if b.name in ("indices_to_bits", "indices_to_symbols") and isinstance(x, np.ndarray) and x.dtype == bool:
                continue
            got = op(x, *extra)
            m.shape(got, want.shape, f"{b.name} of {short(x, 150)}")
            m.ok(same(image(np.asarray(got)), want), lambda: f"{e.desc}.{b.name} of {short(x, 200)}: observed {short(got, 200)} "
                 f"per-block {short(want, 200)}")
        if lead == () and per == 1:
            m.tag("single block")
        m.tag(b.name)


def totuple(a):
    return tuple(totuple(x) for x in a) if np.ndim(a) else a.item()


@section("X02", 250, 4000)
def not_multiples(m, r, i):
    e = entry(r, False, BLOCKY[i % len(BLOCKY)])
    o = e.make()
    done = False
    for b in e.blocks:
        if b.inb < 2:
            continue
        extra = getattr(b, "extra", ())
        op = getattr(o, b.name)
        per = int(r.integers(1, 4))
        X = np.asarray(b.draw(r, per + 1)).reshape(-1)
        L = per * b.inb + int(r.integers(1, b.inb))
        for L in {L, int(r.integers(1, b.inb)), b.inb * per - 1, b.inb * per + 1}:
            if L <= 0 or L % b.inb == 0:
                continue
            x = X[:L]
            for y in (x, x.tolist(), np.stack([x, x])):
                m.note(obj=e.desc, op=b.name, input=y)
                m.refuses(lambda: op(y, *extra), f"{e.desc}.{b.name} of length {L} (block size {b.inb})")
                done = True
    if not done:
        m.trivial()


@section("X02", 150, 2000)
def no_blocks(m, r, i):
    """A batch may hold no block at all: the result holds none either."""
    e = entry(r, False, BLOCKY[i % len(BLOCKY)])
    o = e.make()
    for b in e.blocks:
        extra = getattr(b, "extra", ())
        op = getattr(o, b.name)
        lead = tuple(int(x) for x in r.integers(1, 4, size=int(r.integers(0, 3))))
        dtype = np.asarray(b.draw(r, 1)).dtype
        m.note(obj=e.desc, op=b.name, lead=lead)
        for x in (np.zeros(lead + (0,), dtype=dtype), np.zeros(lead + (0,), dtype=dtype).tolist()):
            m.shape(op(x, *extra), lead + (0,), f"{e.desc}.{b.name} of no block")
        if e.family in ("block", "decoder", "terminated"):
            m.shape(op(np.zeros((0,) + lead + (b.inb,), dtype=dtype), *extra), (0,) + lead + (b.outb,), f"{e.desc}.{b.name} of no row")
        m.tag(b.name)


def _empties():
    k = komm
    W = [[0.75, 0.25], [0.5, 0.5]]
    return [("gaussian_q", k.gaussian_q), ("gaussian_q_inv", k.gaussian_q_inv), ("marcum_q", lambda x: k.marcum_q(1, x, x)), ("boxplus", lambda x: k.boxplus(x, x)),
            ("UniformQuantizer.quantize", k.UniformQuantizer(4, 1.0).quantize), ("UniformQuantizer.digitize", k.UniformQuantizer(4, 1.0).digitize),
            ("ScalarQuantizer.quantize", k.ScalarQuantizer([0.0, 1.0], [0.5]).quantize), ("GaussianChannel", k.GaussianChannel(1.0).transmit),
            ("SincPulse.waveform", k.SincPulse().waveform), ("SincPulse.spectrum", k.SincPulse().spectrum),
            ("RaisedCosinePulse.waveform", k.RaisedCosinePulse(0.5).waveform), ("RaisedCosinePulse.spectrum", k.RaisedCosinePulse(0.5).spectrum),
            ("BSC", k.BinarySymmetricChannel(0.5).transmit), ("DMC", k.DiscreteMemorylessChannel(W).transmit), ("ZChannel", k.ZChannel(0.5).transmit),
            ("BEC", k.BinaryErasureChannel(0.5).transmit)]


@section("X02", lambda: 16, lambda: 16, exhaustive=True)
def nothing(m, r, i):
    nm, f = _empties()[i]
    for shape in ((0,), (2, 0), (0, 3)):
        m.note(op=nm, shape=shape)
        m.shape(f(np.zeros(shape)), shape, f"{nm} of an empty array")
    m.shape(f([]), (0,), f"{nm} of an empty list")


# ---------------------------------------------------------------- X03: representations
def namespace():
    ns = {k: getattr(komm, k) for k in dir(komm) if not k.startswith("_")}
    ns.update(np=np, nan=float("nan"), inf=float("inf"), array=np.array)
    return ns


def check_rebuild(m, o, ops, desc):
    try:
        text = repr(o)
    except Exception as e:
        raise Violation(f"repr of {desc} raised {type(e).__name__}: {e}")
    m.compared[m._section] += 1
    m.ok(not re.search(r"<\w+(\.\w+)* object at", text) and "..." not in text, lambda: f"{desc}: representation {text[:200]} is not an expression")
    try:
        o2 = eval(text, namespace())
    except Exception as e:
        raise Violation(f"{desc}: evaluating {text[:300]} raised {type(e).__name__}: {e}")
    m.ok(type(o2) is type(o), lambda: f"{desc}: {text[:200]} evaluates to {type(o2).__name__}")
    if not re.search(r"\dj\b", text):  # complex literals do not keep the sign of a zero part
        m.eq(repr(o2), text, f"{desc}: representation of the rebuilt object")
    for op in ops:
        if op.random:
            continue
        a, b = raised(lambda: op.apply(o)), raised(lambda: op.apply(o2))
        m.ok(same(image(a), image(b)), lambda: f"{desc}: {op} gives {short(a, 200)}, rebuilt object gives {short(b, 200)} ({text[:300]})")


@section("X03", 900, 15000)
def rebuild(m, r, i):
    e = entry(r, bool(r.integers(0, 4) == 0), FAMILIES[i % len(FAMILIES)])
    if not e.rebuild:
        m.trivial()
        e = entry(r, False, FAMILIES[0])
    o = e.make()
    m.note(obj=e.desc)
    if r.integers(0, 2):  # the representation must not depend on what was computed before
        for op in e.ops:
            raised(lambda: op.apply(o))
    check_rebuild(m, o, e.ops, e.desc)


@section("X03", 150, 2500)
def rebuild_more(m, r, i):
    """Large parameters, elements whose fields are awkward, and the objects the catalog lacks."""
    t = i % 12
    I = lambda a, b: int(r.integers(a, b))  # noqa: E731
    x = float(r.choice([0.1, 1 / 3, 1e-300, 5e-324, 1e22, 123456789.123456789, 2 ** 0.5]))
    ops = []
    if t == 0:
        from . import gconv
        c = gconv.any_conv(r, max_nu=3, kmax=2, nmax=3, max_states=8)
        tau, st = I(1, 9), I(0, 2 ** c.sigma)
        o = komm.ViterbiStreamDecoder(c.code, tau, st, str(r.choice(["hard", "soft"])))
        z = np.sign(r.normal(size=6 * c.n)) if o.input_type == "soft" else r.integers(0, 2, size=6 * c.n)
        ops = [Op("decode", (z,))]
        if st:
            m.tag("stream decoder with a non-zero state")
    elif t == 1:
        d = I(25, 70)
        while True:
            p = (1 << d) | I(0, 1 << min(d, 62)) | 1
            if komm.BinaryPolynomial(p).is_irreducible():
                break
        o = komm.FiniteBifield(d, modulus=p)
        ops = [Op("modulus"), Op("order"), Op("degree")]
    elif t == 2:
        o = [komm.PAMConstellation(I(1, 9) * 2, x), komm.ASKConstellation(I(1, 9) + 1, x, r.random()), komm.PSKConstellation(I(2, 20), x, r.random()),
             komm.QAMConstellation((4, 2), (x, 2 * x), r.random()), komm.QAMConstellation(16, x), komm.CrossQAMConstellation(32, x, r.random()),
             komm.OrthogonalConstellation(I(2, 9), x), komm.BiorthogonalConstellation(I(1, 6) * 2, x), komm.SimplexConstellation(I(2, 9), x),
             komm.APSKConstellation((4, 8), (x, 2 * x), (r.random(), r.random()))][I(0, 10)]
        ops = [Op("matrix")]
    elif t == 3:
        o = komm.Constellation((r.normal(size=(I(2, 40), I(1, 4))) * x) + (1j * r.normal() if r.integers(0, 2) else 0))
        ops = [Op("matrix")]
    elif t == 4:
        n = I(1, 60)
        o = komm.BlockCode(generator_matrix=np.hstack([np.eye(n, dtype=int), r.integers(0, 2, size=(n, I(1, 60)))]))
        ops = [Op("generator_matrix"), Op("length")]
    elif t == 5:
        o = [komm.GaussianChannel(x), komm.BinarySymmetricChannel(r.random()), komm.ZChannel(r.random()), komm.BinaryErasureChannel(r.random()),
             komm.DiscreteMemorylessChannel(r.dirichlet(np.ones(30), size=40))][I(0, 5)]
        ops = [Op("noise_power")] if isinstance(o, komm.GaussianChannel) else [Op("transition_matrix")]
    elif t == 6:
        o = [komm.RectangularPulse(x), komm.GaussianPulse(x), komm.RaisedCosinePulse(r.random()), komm.RaisedCosinePulse(r.random()).root(),
             komm.SincPulse().root(), komm.BeaulieuPulse(r.random()), komm.BeaulieuPulse(r.random()).root(), komm.ManchesterPulse()][I(0, 8)]
        ops = [Op("spectrum", (np.array([0.0, 0.1, 0.4]),))]
    elif t == 7:
        L = I(500, 1500)
        o = [komm.BinarySequence(bit_sequence=r.integers(0, 2, size=L)), komm.ComplexSequence(r.normal(size=L) + 1j * r.normal(size=L)),
             komm.ZadoffChuSequence(2 * L + 1, I(1, L)), komm.WalshHadamardSequence(1024, "sequency", I(0, 1024)),
             komm.LFSRSequence.maximum_length_sequence(I(1, 12))][I(0, 5)]
        ops = [Op("autocorrelation", ([0, 1, 7],))]
    elif t == 8:
        n = I(1100, 1300)
        p = r.dirichlet(np.ones(n))
        o = [komm.DiscreteMemorylessSource(p), komm.DiscreteMemorylessSource(n), komm.MarkovChain(r.dirichlet(np.ones(40), size=40)),
             komm.ScalarQuantizer(np.arange(n) * 1.0, np.arange(n - 1) + 0.5)][I(0, 4)]
        ops = [Op("entropy_rate", ())] if hasattr(o, "entropy_rate") else [Op("levels")] if hasattr(o, "levels") else [Op("transition_matrix")]
    elif t == 9:
        o = [komm.BinaryPolynomial(int.from_bytes(r.bytes(60), "big")), komm.BinaryPolynomialFraction(I(0, 2**40), I(1, 2**40)), komm.BinaryPolynomial(0),
             komm.BinaryPolynomialFraction(0, I(1, 99)), komm.Integer(I(-5, 5))][I(0, 5)]
    elif t == 10:
        p = r.dirichlet(np.ones(I(2, 40)))
        o = [komm.HuffmanCode(p), komm.ShannonCode(p), komm.FanoCode(p), komm.TunstallCode(p, 7), komm.LempelZiv78Code(I(2, 300), I(2, 9))][I(0, 5)]
        ops = [Op("enc_mapping")] if hasattr(o, "enc_mapping") else [Op("dec_mapping")] if hasattr(o, "dec_mapping") else [Op("source_cardinality")]
    else:
        from .p_mapping import rand_labeling
        o = rand_labeling(r)[0]
        o = komm.ProductLabeling(o, rand_labeling(r, 1, 2)[0])
        ops = [Op("matrix")]
    m.note(kind=t, obj=short(o, 300))
    check_rebuild(m, o, ops, short(o, 150))


# ---------------------------------------------------------------- X04: randomness
def gstate(g):
    return repr(g.bit_generator.state)


def legacy():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2:])


def rand_random(r):
    """(maker taking keyword rng or not, list of (method, args), long enough for seeds to show)."""
    t = int(r.integers(0, 7))
    N = 64
    if t < 3:
        p = float(r.uniform(0.2, 0.8))
        cls = [komm.BinarySymmetricChannel, komm.BinaryErasureChannel, komm.ZChannel][t]
        xs = np.ones(N, int)
        return (lambda **k: cls(p, **k)), [("transmit", (xs,)), ("transmit", (r.integers(0, 2, size=(3, 4)),)), ("transmit", (xs.tolist(),))], f"{cls.__name__}({p})"
    if t == 3:
        W = r.dirichlet(np.ones(4) * 3, size=3)
        return (lambda **k: komm.DiscreteMemorylessChannel(W, **k)), [("transmit", (r.integers(0, 3, size=N),)), ("transmit", ([[0, 1], [2, 0]],))], f"DMC({W.tolist()})"
    if t == 4:
        v = float(r.uniform(0.1, 5))
        x = r.normal(size=N)
        return (lambda **k: komm.GaussianChannel(v, **k)), [("transmit", (x,)), ("transmit", (x + 1j,)), ("transmit", (x.reshape(8, 8),))], f"AWGN({v})"
    if t == 5:
        p = r.dirichlet(np.ones(4) * 3)
        return (lambda **k: komm.DiscreteMemorylessSource(p, **k)), [("emit", (N,)), ("emit", ((3, 5),)), ("emit", ())], f"DMS({p.tolist()})"
    P = r.dirichlet(np.ones(4) * 3, size=5)
    Q = np.vstack([P[:3] * 0.9, np.eye(4)[3]])
    Q[:3, 3] += 1 - Q[:3].sum(axis=1)
    return (lambda **k: komm.MarkovChain(Q if r0 else P[:4], **k)), [("simulate", (0, N)), ("simulate", (1, 5))] + (
        [("simulate_until_absorption", (0,))] * 6 if r0 else []), f"chain absorbing={r0}"


r0 = False


def plan(r, ops, n):
    return [ops[int(r.integers(0, len(ops)))] for _ in range(n)]


def play(o, seq):
    return [image(getattr(o, name)(*args)) for name, args in seq]


def exact(a, b):
    return fingerprint(a) == fingerprint(b)


@section("X04", 300, 6000)
def reproducible(m, r, i):
    global r0
    r0 = bool(r.integers(0, 2))
    mk, ops, desc = rand_random(r)
    seq = [ops[0]] + plan(r, ops, 4)
    s = int(r.integers(0, 2**60))
    m.note(obj=desc, seed=s, calls=[a for a, _ in seq])
    lg = legacy()
    runs = []
    for _ in range(2):  # library generator set before construction
        komm.global_rng.set(np.random.default_rng(s))
        runs.append(play(mk(), seq))
    m.ok(exact(runs[0], runs[1]), lambda: f"{desc}: same library seed, different outputs {short(runs[0], 150)} / {short(runs[1], 150)}")
    komm.global_rng.set(np.random.default_rng(12345))
    g0 = gstate(komm.global_rng.get())
    own = [play(mk(rng=np.random.default_rng(s)), seq) for _ in range(2)]
    m.ok(exact(own[0], own[1]), lambda: f"{desc}: same passed generator, different outputs {short(own[0], 150)} / {short(own[1], 150)}")
    m.ok(exact(own[0], runs[0]), lambda: f"{desc}: passed generator and library generator of the same seed disagree")
    m.eq(gstate(komm.global_rng.get()), g0, f"{desc}: library generator untouched when a generator is passed")
    other = play(mk(rng=np.random.default_rng(s + 1)), seq)
    m.ok((r0 and "chain" in desc) or not exact(own[0], other), lambda: f"{desc}: seeds {s} and {s + 1} give the same outputs {short(other, 200)}")
    komm.global_rng.set(np.random.default_rng(s + 1))
    m.ok(exact(play(mk(), seq), other), lambda: f"{desc}: library seed {s + 1} disagrees with the passed generator")
    m.ok(legacy() == lg, f"{desc}: NumPy's legacy global generator was touched")
    # successive calls continue the stream
    g = np.random.default_rng(s)
    o = mk(rng=g)
    st = gstate(g)
    a = image(getattr(o, seq[0][0])(*seq[0][1]))
    m.ok(gstate(g) != st, f"{desc}: a random call draws from the generator passed in")
    b = image(getattr(o, seq[0][0])(*seq[0][1]))
    m.ok((r0 and "chain" in desc) or not exact(a, b), lambda: f"{desc}: two successive random calls gave identical outputs {short(a, 150)}")
    g2 = np.random.default_rng()
    g2.bit_generator.state = np.random.default_rng(s).bit_generator.state
    m.ok(exact(play(mk(rng=g2), [seq[0], seq[0]]), [a, b]), f"{desc}: state of the passed generator determines the outputs")


@section("X04", 200, 4000)
def isolated(m, r, i):
    """Objects with their own generators do not influence one another; objects sharing the library generator replay together."""
    global r0
    r0 = bool(r.integers(0, 2))
    things = []
    for _ in range(int(r.integers(2, 4))):
        mk, ops, desc = rand_random(r)
        things.append((mk, plan(r, ops, 4), desc, int(r.integers(0, 2**60))))
    m.note(objects=[t[2] for t in things])
    alone = [play(mk(rng=np.random.default_rng(s)), seq) for mk, seq, _, s in things]
    objs = [mk(rng=np.random.default_rng(s)) for mk, _, _, s in things]
    outs = [[] for _ in things]
    order = [a for a in range(len(things)) for _ in range(4)]
    r.shuffle(order)
    for a in order:
        outs[a] += play(objs[a], [things[a][1][len(outs[a])]])
    for a, t in enumerate(things):
        m.ok(exact(outs[a], alone[a]), lambda: f"{t[2]}: outputs changed by other objects' activity")
    shared = []
    for _ in range(2):
        komm.global_rng.set(np.random.default_rng(i))
        objs = [t[0]() for t in things]
        n = [0] * len(things)
        res = []
        for a in order:
            res += play(objs[a], [things[a][1][n[a]]])
            n[a] += 1
        shared.append(res)
    m.ok(exact(shared[0], shared[1]), "interleaved objects on the library generator replay bit for bit")


@section("X04", 500, 8000)
def deterministic_draw_nothing(m, r, i):
    komm.global_rng.set(np.random.default_rng(i))
    e = entry(r, False, FAMILIES[i % len(FAMILIES)])
    komm.global_rng.set(np.random.default_rng(i))
    lg, g0 = legacy(), gstate(komm.global_rng.get())
    o = e.make()
    m.note(obj=e.desc)
    rng = getattr(o, "rng", None) or getattr(o, "_rng", None)
    st = gstate(rng) if isinstance(rng, np.random.Generator) else None
    m.eq(gstate(komm.global_rng.get()), g0, f"{e.desc}: construction draws nothing")
    for op in e.ops:
        if op.random:
            continue
        raised(lambda: op.apply(o))
        m.ok(gstate(komm.global_rng.get()) == g0, lambda: f"{e.desc}: {op} drew from the library generator")
        if st:
            m.ok(gstate(rng) == st, lambda: f"{e.desc}: {op} drew from the object's generator")
        m.ok(legacy() == lg, lambda: f"{e.desc}: {op} touched NumPy's legacy generator")
    for name, fn, args in catalog.static_ops(r) if i % 10 == 0 else ():
        raised(lambda: fn(*args))
        m.ok(legacy() == lg and gstate(komm.global_rng.get()) == g0, lambda: f"{name} drew random numbers")


@section("X04", 100, 1500)
def no_library_use(m, r, i):
    """Whole workloads of deterministic monitors leave the legacy generator and the library generator alone."""
    P = [s for s in pool() if s.prop[0] in "ABDVFLGKIPQSU"]
    s = P[i % len(P)]
    lg = legacy()
    seen = []

    def hook(label, fn, args, kwargs):
        g = komm.global_rng.get()
        before = gstate(g) if len(seen) < 40 else None
        res = fn(*args, **kwargs)
        if before is not None:
            seen.append(label)
            m.ok(gstate(g) == before, lambda: f"{label} drew from the library generator")
        return res
    bad = []

    def safe(label, fn, args, kwargs):
        try:
            return hook(label, fn, args, kwargs)
        except Violation as v:
            bad.append(v)
            raise
    run_muted(m, s, int(r.integers(0, max(1, s.count("quick")))), safe)
    m.note(workload=f"{s.prop}/{s.name}", calls=len(seen))
    if bad:
        raise bad[0]
    m.ok(legacy() == lg, f"workload {s.prop}/{s.name} touched NumPy's legacy generator")
    m.tag("calls observed", len(seen))
