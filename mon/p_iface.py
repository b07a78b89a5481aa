"""X05, X06, X08, X09: kinds of results, refusals, copies, threads (cross-cutting, over the catalog of objects)."""
import copy
import pickle
import sys
import threading
import time

import numpy as np

import komm

from . import catalog
from .catalog import FAMILIES, entry, image, raised, same
from .core import rule, section, short

rule("X05", "Every deterministic and random operation of every catalogued object, integer, empty and soft inputs; oracle: a table of declared result "
     "kinds (integer / real / complex array, count, predicate, algebra element) per operation.")
rule("X06", "Every constructor and function with a restricted parameter: values just inside each restriction must be accepted, values outside it "
     "(wrong size, range, sign, shape, name, type, duplicates) must be refused.")
rule("X08", "copy.copy, copy.deepcopy and pickle round trips of catalogued objects, before and after use; oracle: results of the original object; "
     "mutating runs on the copy must not be seen by the original.")
rule("X09", "One object shared by several threads under a 10 microsecond switch interval, calls in different orders per thread; oracle: results of a "
     "fresh equal object used sequentially.")

INT, FLT, CPX, NUM, CNT, REAL, PRED = "integer array", "real array", "complex array", "real or complex array", "count", "real number", "truth value"
POLY, FRAC, ELEM, MACH = "BinaryPolynomial", "BinaryPolynomialFraction", "FiniteBifieldElement", "MealyMachine"
THROUGH = "integer array if the input is"  # float input passes through

BLOCK = {
    "check": THROUGH, "encode": THROUGH, "inverse_encode": THROUGH, "check_matrix": INT, "generator_matrix": INT, "codewords": INT,
    "codeword_weight_distribution": INT, "coset_leaders": INT, "coset_leader_weight_distribution": INT, "covering_radius": CNT, "dimension": CNT,
    "length": CNT, "minimum_distance": CNT, "packing_radius": CNT, "redundancy": CNT, "rate": REAL, "check_polynomial": POLY,
    "generator_polynomial": POLY, "generator_matrix_right_inverse": INT,
}
KINDS = {
    "block": BLOCK, "terminated": BLOCK,
    "decoder": {},
    "conv": {"constraint_lengths": INT, "degree": CNT, "encode": INT, "encode_with_state": (THROUGH, INT), "finite_state_machine": MACH, "free_distance": CNT,
             "is_catastrophic": PRED, "memory_order": CNT, "num_input_bits": CNT, "num_output_bits": CNT, "overall_constraint_length": CNT,
             "state_space_representation": (INT, INT, INT, INT)},
    "machine": {"forward_backward": FLT, "input_edges": INT, "output_edges": INT, "num_input_symbols": CNT, "num_output_symbols": CNT, "num_states": CNT,
                "outputs": INT, "transitions": INT, "process": (INT, CNT), "viterbi": (INT, FLT)},
    "labeling": {"bits_to_indices": INT, "indices_to_bits": INT, "cardinality": CNT, "num_bits": CNT, "marginalize": FLT, "matrix": INT},
    "constellation": {"closest_indices": INT, "closest_symbols": NUM, "indices_to_symbols": NUM, "matrix": NUM, "mean": NUM, "dimension": CNT, "order": CNT,
                      "mean_energy": REAL, "minimum_distance": REAL, "posteriors": FLT},
    "fv": {"decode": INT, "encode": INT, "is_prefix_free": PRED, "is_uniquely_decodable": PRED, "kraft_parameter": REAL, "rate": REAL, "size": CNT,
           "source_block_size": CNT, "source_cardinality": CNT, "target_cardinality": CNT, "lengths": [CNT]},
    "vf": {"decode": INT, "encode": INT, "is_fully_covering": PRED, "is_prefix_free": PRED, "is_uniquely_encodable": PRED, "rate": REAL, "size": CNT,
           "target_block_size": CNT, "source_cardinality": CNT, "target_cardinality": CNT, "lengths": [CNT]},
    "lz": {"decode": INT, "encode": INT, "tokens_to_source": INT, "tokens_to_target": INT},
    "integer": {"decode": INT, "encode": INT},
    "channel": {"capacity": REAL, "mutual_information": REAL, "noise_power": REAL, "input_cardinality": CNT, "output_cardinality": CNT,
                "transition_matrix": FLT},
    "source": {"cardinality": CNT, "emit": INT, "entropy_rate": REAL, "pmf": FLT},
    "chain": {"absorbing_states": {CNT}, "transient_states": {CNT}, "recurrent_states": {CNT}, "accessible_states_from": {CNT}, "absorption_probabilities": FLT,
              "communicating_classes": [{CNT}], "index_of_primitivity": CNT, "is_absorbing": PRED, "is_aperiodic": PRED, "is_irreducible": PRED,
              "is_regular": PRED, "mean_number_of_visits": FLT, "mean_time_to_absorption": FLT, "num_states": CNT, "period": CNT, "simulate": INT,
              "stationary_distribution": FLT, "transition_matrix": FLT},
    "quantizer": {"digitize": INT, "levels": FLT, "thresholds": FLT, "mean_squared_error": REAL, "quantize": FLT},
    "sequence": {"bit_sequence": INT, "polar_sequence": INT, "length": CNT, "sequence": CPX},
    "pulse": {"autocorrelation": FLT, "energy": REAL, "energy_spectral_density": FLT, "spectrum": CPX, "taps": FLT, "waveform": FLT,
              "support": (REAL, REAL)},
    "field": {"characteristic": CNT, "degree": CNT, "order": CNT, "modulus": POLY, "one": ELEM, "zero": ELEM, "__call__": ELEM},
    "fraction": {"__add__": FRAC, "__mul__": FRAC, "__truediv__": FRAC, "inverse": FRAC, "numerator": POLY, "denominator": POLY},
    "polynomial": {"__add__": POLY, "__sub__": POLY, "__mul__": POLY, "__mod__": POLY, "__floordiv__": POLY, "__divmod__": (POLY, POLY), "coefficients": INT,
                   "exponents": INT, "degree": CNT, "is_irreducible": PRED, "is_primitive": PRED, "reciprocal": POLY},
}


def fits(x, k):
    if isinstance(k, tuple):
        return isinstance(x, tuple) and len(x) == len(k) and all(fits(a, b) for a, b in zip(x, k))
    if isinstance(k, list):
        return isinstance(x, list) and all(fits(a, k[0]) for a in x)
    if isinstance(k, set):
        return isinstance(x, (set, frozenset)) and all(fits(a, next(iter(k))) for a in x)
    if k == CNT:
        return isinstance(x, (int, np.integer)) and not isinstance(x, (bool, np.bool_))
    if k == PRED:
        return isinstance(x, (bool, np.bool_))
    if k == REAL:
        return isinstance(x, (float, np.floating)) or (isinstance(x, int) and not isinstance(x, bool))
    if k in (POLY, FRAC, ELEM, MACH):
        return type(x).__name__ == k
    if not isinstance(x, (np.ndarray, np.generic)):
        return False
    c = x.dtype.kind
    return c in {INT: "iu", FLT: "f", CPX: "c", NUM: "fc"}[k]


def plain_int(args):
    """Unsigned 64-bit words are left out: NumPy promotes their products with signed integers to float."""
    return all(not isinstance(a, np.ndarray) or (a.dtype.kind in "iu" and a.dtype != np.uint64) for a in args or ())


@section("X05", 1500, 20000)
def result_kinds(m, r, i):
    e = entry(r, True, FAMILIES[i % len(FAMILIES)])
    o = e.make()
    m.note(obj=e.desc)
    table = KINDS[e.family]
    if e.family == "labeling" and np.asarray(o.matrix).dtype.kind not in "iu":
        return m.trivial()  # built from a boolean matrix: keeps the caller's dtype
    for op in e.ops:
        k = table.get(op.name)
        if e.family == "decoder" and op.name == "decode":
            k = FLT if getattr(o, "output_type", "hard") == "soft" else INT
        if e.family == "channel" and op.name == "transmit":
            k = NUM if isinstance(o, komm.GaussianChannel) else INT
        if k is None:
            continue
        if k == THROUGH or k == (THROUGH, INT):
            if not plain_int(op.args):
                continue
            k = INT if k == THROUGH else (INT, INT)
        st, v = raised(lambda: op.apply(o))
        if st == "ok":
            m.ok(fits(v, k), lambda: f"{e.desc}.{op}: result {short(v, 120)} ({getattr(v, 'dtype', type(v).__name__)}) is not a {k}")
            m.tag(f"{e.family}.{op.name}")
        elif (op.args is None and op.name != "generator_matrix_right_inverse") or op.name in ("codewords", "minimum_distance", "digitize", "quantize"):
            m.ok(False, lambda: f"{e.desc}.{op} raised {v}")


BITS = (np.bool_, np.int8, np.uint8, np.int16, np.uint32, np.int64, list)


def other_kind(r, a, reals):
    """The same values held in another integer or boolean kind (or a list), where they fit; reals in another precision or as integers."""
    if isinstance(a, list) and len(a) and all(isinstance(x, (int, float)) for x in a):
        a = np.asarray(a)
    if not isinstance(a, np.ndarray) or a.dtype.kind not in "biuf" or a.size == 0:
        return a  # an empty list is an array of reals to NumPy
    t = BITS[int(r.integers(0, len(BITS)))]
    if a.dtype.kind == "f":
        if reals and r.integers(0, 2) and np.all(np.isfinite(a)):
            t, a = np.int64, np.rint(a)
        else:
            return a.astype(np.float32) if r.integers(0, 2) else a.tolist()
    if t is list:
        return a.tolist()
    lo, hi = (0, 1) if t is np.bool_ else (np.iinfo(t).min, np.iinfo(t).max)
    return a.astype(t) if a.size == 0 or (a.min() >= lo and a.max() <= hi) else a


@section("X05", 1500, 20000)
def kinds_for_other_inputs(m, r, i):
    """The kind of a result does not depend on the kind of array that carries the argument."""
    e = entry(r, True, FAMILIES[i % len(FAMILIES)])
    if e.family in ("polynomial", "field", "fraction", "fv", "vf"):
        e = entry(r, True, FAMILIES[(i + 5) % len(FAMILIES)])
    o = e.make()
    m.note(obj=e.desc)
    m.ok(True, "reached")
    if e.family == "labeling" and np.asarray(o.matrix).dtype.kind not in "iu":
        return m.trivial()
    for op in e.ops:
        k = KINDS[e.family].get(op.name)
        if e.family == "decoder" and op.name == "decode":
            k = FLT if getattr(o, "output_type", "hard") == "soft" else INT
        if e.family == "channel" and op.name == "transmit":
            k = NUM if isinstance(o, komm.GaussianChannel) else INT
        if k is None or op.args is None or not any(isinstance(a, (np.ndarray, list, tuple)) for a in op.args):
            continue
        args = tuple(other_kind(r, a, e.family != "decoder") for a in op.args)
        m.note(obj=e.desc, op=op.name, args=args)
        if k in (THROUGH, (THROUGH, INT)):
            if any(np.asarray(a).dtype.kind not in "biu" for a in args) or not plain_int(op.args):
                continue
            k = INT if k == THROUGH else (INT, INT)
        st, v = raised(lambda: getattr(o, op.name)(*args, **op.kwargs))
        if st == "ok":
            m.ok(fits(v, k), lambda: f"{e.desc}.{op.name}{short(args, 200)}: result {short(v, 120)} ({getattr(v, 'dtype', type(v).__name__)}) is not a {k}")
            for a in args:
                m.tag(f"{op.name} of {a.dtype if isinstance(a, np.ndarray) else type(a).__name__}")


def presentation(r, a):
    """The same values in another memory layout."""
    if isinstance(a, (list, tuple)) and len(a) and not isinstance(a[0], (list, tuple, np.ndarray)):
        b = np.asarray(a)
        a = b if b.dtype.kind in "iuf" else a
    if not isinstance(a, np.ndarray) or a.dtype.kind not in "iufcb" or a.ndim == 0:
        return a
    t = int(r.integers(0, 6))
    if t == 0:
        return a.astype(a.dtype.newbyteorder(">"))
    if t == 1:
        b = a.copy()
        b.flags.writeable = False
        return b
    if t == 2:  # a slice of a larger buffer
        b = np.zeros((*a.shape[:-1], 2 * a.shape[-1]), a.dtype)
        b[..., ::2] = a
        return b[..., ::2]
    if t == 3:
        return np.asfortranarray(a)
    if t == 4:  # an unaligned view
        b = np.zeros(a.nbytes + 1, np.uint8)[1:].view(a.dtype).reshape(a.shape)
        b[...] = a
        return b
    return np.ascontiguousarray(a[..., ::-1])[..., ::-1]


@section("X02", 1200, 16000)
def presentations(m, r, i):
    e = entry(r, True, FAMILIES[i % len(FAMILIES)])
    a, b = e.make(), e.make()
    m.note(obj=e.desc)
    m.ok(True, "reached")
    for op in e.ops:
        if op.args is None or op.random:
            continue
        args = tuple(presentation(r, x) for x in op.args)
        if all(x is y for x, y in zip(args, op.args)):
            continue
        got = raised(lambda: getattr(a, op.name)(*args, **op.kwargs))
        want = raised(lambda: op.apply(b))
        m.note(obj=e.desc, op=op.name, args=op.args)
        m.ok(got[0] == want[0] and (got[0] != "ok" or same(image(got[1]), image(want[1]))), lambda: f"{e.desc}.{op}: observed {short(got, 150)} "
             f"on the same values laid out differently ({[(x.dtype.str, x.strides) for x in args if isinstance(x, np.ndarray)]}), expected {short(want, 150)}")
        m.tag(f"{e.family}.{op.name}")


@section("X05", 200, 3000)
def empty_streams(m, r, i):
    """An empty message is a message: integer-valued, empty, in every stream coder."""
    fam = [catalog.e_fv, catalog.e_vf, catalog.e_lz, catalog.e_integer][i % 4]
    e = entry(r, True, fam)
    o = e.make()
    m.note(obj=e.desc)
    for x in ([], np.array([], dtype=int), np.array([], dtype=np.uint8)):
        st, v = raised(lambda: o.encode(x))
        if e.family in ("fv", "vf") and st == "raise":
            m.ok(v in ("ValueError", "NotImplementedError"), lambda: f"{e.desc}.encode of an empty stream raised {v}")
            return m.trivial()
        m.ok(st == "ok" and fits(v, INT), lambda: f"{e.desc}.encode({x!r}) gave {v!r}")
        w = o.decode(v)
        m.ok(fits(w, INT) and w.size == 0, lambda: f"{e.desc}: empty stream came back as {w!r}")


@section("X05", 60, 400)
def function_kinds(m, r, i):
    x = np.round(r.normal(size=(2, 4)), 3)
    b = r.integers(0, 2, size=(2, 6))
    p = r.dirichlet(np.ones(3))
    m.note(x=x, b=b)
    for name, got, k in [
        ("entropy", komm.entropy(p), REAL), ("relative_entropy", komm.relative_entropy(p, p), REAL), ("binary_entropy", komm.binary_entropy(0.25), REAL),
        ("binary_entropy_inv", komm.binary_entropy_inv(0.25), REAL), ("gaussian_q", komm.gaussian_q(x), FLT), ("gaussian_q scalar", komm.gaussian_q(0.5), REAL),
        ("gaussian_q of integers", komm.gaussian_q(b), FLT), ("gaussian_q_inv", komm.gaussian_q_inv(np.abs(np.tanh(x))), FLT),
        ("gaussian_q_inv scalar", komm.gaussian_q_inv(0.3), REAL), ("marcum_q", komm.marcum_q(2, np.abs(x), 1), FLT), ("marcum_q scalar", komm.marcum_q(1, 1, 1), REAL),
        ("boxplus", komm.boxplus(x, x), FLT), ("boxplus of integers", komm.boxplus(b, b), FLT), ("boxplus scalar", komm.boxplus(1, 2), REAL),
        ("bits_to_int", komm.bits_to_int(b[0]), CNT), ("int_to_bits", komm.int_to_bits(5, 4), INT), ("int_to_bits of an array", komm.int_to_bits([5, 2], 4), INT),
        ("compress", komm.sampling_rate_compress(b, 2), INT), ("expand", komm.sampling_rate_expand(b, 2), INT), ("compress", komm.sampling_rate_compress(x, 2), FLT),
        ("expand", komm.sampling_rate_expand(x, 2), FLT), ("convolve", komm.convolve(x, x[0]), FLT), ("convolve complex", komm.convolve(x, 1j * x[0]), CPX),
    ]:
        m.ok(fits(got, k), lambda: f"{name}: result {short(got, 100)} is not a {k}")


# ---------------------------------------------------------------- X06
def restrictions(r):
    """(what, constructor, accepted argument tuples, refused argument tuples)."""
    k = komm
    p3 = r.dirichlet(np.ones(3))
    n = int(r.integers(2, 6))
    I2 = np.eye(2, dtype=int)
    conv = k.ConvolutionalCode([[0o7, 0o5]])
    tb = k.TerminatedConvolutionalCode(conv, 4, "tail-biting")
    zt = k.TerminatedConvolutionalCode(conv, 3)
    polar = k.PolarCode(2, [0, 1])
    field = k.FiniteBifield(n)
    other = k.FiniteBifield(n + 1)
    fv = k.FixedToVariableCode
    vf = k.VariableToFixedCode
    bp = k.BinaryPolynomial
    W = r.dirichlet(np.ones(3), size=2)
    lz = lambda c: lambda s, l, x, y=2, b=None: c(search_size=s, lookahead_size=l, source_cardinality=x, target_cardinality=y, search_buffer=b)
    return [
        ("FiniteBifield", k.FiniteBifield, [(1,), (n,), (n, field.modulus)], [(0,), (-1,), (25,), (n, other.modulus), (2, 0b101), (3, 0b1111)]),
        ("maximum_length_sequence", k.LFSRSequence.maximum_length_sequence, [(1,), (n,), (10,)], [(0,), (-1,), (25,)]),
        ("BinaryPolynomial.default_primitive", getattr(bp, "default_primitive", None) or (lambda d: k.FiniteBifield(d).modulus), [(1,), (16,)], [(0,), (25,)]),
        ("BinaryPolynomial power", lambda e: bp(0b1011) ** e, [(0,), (1,), (5,)], [(-1,), (-n,)]),
        ("BCHCode", k.BCHCode, [(2, 3), (3, 3), (4, 5)], [(2, 2), (1, 2), (0, 2), (3, 1), (3, 8), (3, 4), (4, 6)]),
        ("BlockCode", lambda **kw: k.BlockCode(**kw), [dict(generator_matrix=[[1, 0, 1]]), dict(check_matrix=[[1, 0, 1]])],
         [dict(), dict(generator_matrix=[[1, 0, 1]], check_matrix=[[1, 0, 1]])]),
        ("SystematicBlockCode", k.SystematicBlockCode, [(I2,), (I2, "right"), (I2, "left"), (I2, [0, 3]), (I2, [3, 0])],
         [(I2, "middle"), (I2, [0]), (I2, [0, 0]), (I2, [0, 4]), (I2, [-1, 0]), (I2, [0, 1, 2])]),
        ("PolarCode", k.PolarCode, [(1, [0]), (2, [0, 1]), (3, [0, 1, 2, 4])], [(0, []), (-1, [0]), (2, [0, 0]), (2, [4]), (2, [-1])]),
        ("ReedMullerCode", k.ReedMullerCode, [(0, 1), (1, 2), (2, 3)], [(1, 1), (2, 2), (-1, 2), (3, 2)]),
        ("HammingCode", k.HammingCode, [(2,), (3,)], [(1,), (0,), (-2,)]),
        ("SimplexCode", k.SimplexCode, [(2,), (3,)], [(1,), (0,)]),
        ("RepetitionCode", k.RepetitionCode, [(1,), (2,)], [(0,), (-1,)]),
        ("SingleParityCheckCode", k.SingleParityCheckCode, [(1,), (2,)], [(0,), (-1,)]),
        ("CordaroWagnerCode", k.CordaroWagnerCode, [(2,), (3,)], [(1,), (0,)]),
        ("Lexicode", k.Lexicode, [(3, 1), (3, 3), (5, 2)], [(3, 0), (3, 4), (0, 1)]),
        ("CyclicCode", lambda **kw: k.CyclicCode(**kw), [dict(length=7, generator_polynomial=0b1011), dict(length=7, check_polynomial=0b10111)],
         [dict(length=7), dict(length=7, generator_polynomial=0b1011, check_polynomial=0b10111), dict(length=7, generator_polynomial=0b111),
          dict(length=7, check_polynomial=0b111)]),
        ("ConvolutionalCode", k.ConvolutionalCode, [([[0o7, 0o5]],), ([[0o27, 0o31]], [0o27])], [([0o7, 0o5],), ([[[0o7, 0o5]]],), ([[0o7, 0o5]], [[0o7]]), ([[0o7, 0o5]], [0o7, 0o5])]),
        ("LowRateConvolutionalCode", k.LowRateConvolutionalCode, [([0o7, 0o5],)], [([[0o7, 0o5]],)]),
        ("HighRateConvolutionalCode", k.HighRateConvolutionalCode, [([0o7, 0o5, 0o3],)], [([[0o7, 0o5, 0o3]],)]),
        ("TerminatedConvolutionalCode", k.TerminatedConvolutionalCode, [(conv, 1), (conv, 3, "direct-truncation"), (conv, 3, "tail-biting")],
         [(conv, 3, "truncated"), (conv, 3, "")]),
        ("ViterbiDecoder", k.ViterbiDecoder, [(zt,), (zt, "soft"), (zt, "hard")], [(tb,), (zt, "none"), (zt, None)]),
        ("BCJRDecoder", lambda c, **kw: k.BCJRDecoder(c, **kw), [(zt,)], [(tb,)]),
        ("BCJRDecoder output", lambda o: k.BCJRDecoder(zt, output_type=o), [("hard",), ("soft",)], [("none",), (None,)]),
        ("encode_with_state", lambda s: conv.encode_with_state([1, 0], s), [([0, 0],), ([1, 1],)], [([0],), ([0, 0, 0],), ([[0, 0]],)]),
        ("Labeling", k.Labeling, [([[0], [1]],), ([[1.0], [0.0]],), ([[True], [False]],), ([[0, 0], [1, 0], [1, 1], [0, 1]],)],
         [([[0.5], [1]],), ([[0], [float("nan")]],), ([[0], [2]],), ([[0], [-1]],), ([[0], [0]],), ([0, 1],), ([[0, 1], [1, 0]],), ([[0], [1e-9]],), ([[1 - 1e-12], [0]],)]),
        ("ProductLabeling.from_matrices", k.ProductLabeling.from_matrices, [([[0], [1]],), ([[0], [1]], [[1], [0]])], [([[0.5], [1]],), ([[0], [1]], [[1], [1]]), ()]),
        ("NaturalLabeling", k.NaturalLabeling, [(1,), (n,)], [(0,), (-1,)]),
        ("ReflectedLabeling", k.ReflectedLabeling, [(1,), (n,)], [(0,), (-1,)]),
        ("ReflectedRectangularLabeling", k.ReflectedRectangularLabeling, [(2,), ((1, 2),)], [((0, 2),), ((2, 0),), ((-1, 1),), (3,)]),
        ("FanoCode", k.FanoCode, [(p3,), (p3, 1), (p3, 2)], [(p3, 0), (p3, -1), (p3 * 2,), (-p3,), ([p3],), ([1.0],)]),
        ("HuffmanCode", k.HuffmanCode, [(p3,), (p3, 2), (p3, 1, "low"), (p3, 1, "high")],
         [(p3, 0), (p3, 1, "medium"), (p3 * 2,), ([p3],), ([1.0],)]),
        ("HuffmanCode assignment", lambda a: k.HuffmanCode(p3, assignment=a), [("tree",), ("canonical",)], [("none",), ("",)]),
        ("ShannonCode", k.ShannonCode, [(p3,), (p3, 2)], [(p3, 0), (p3 * 2,), ([1.0, 0.0],), ([p3],), ([1.0],)]),
        ("TunstallCode", k.TunstallCode, [(p3, 2), (p3, 3)], [(p3, 1), (p3, 0), (p3 * 2, 2), ([1.0],), ([1.0], 1), ([1.0], 3)]),
        ("FixedToVariableCode", fv, [(2, 2, 1, {(0,): (0,), (1,): (1, 0)}), (2, 3, 1, {(0,): (0,), (1,): (2,)})],
         [(1, 2, 1, {(0,): (0,)}), (2, 1, 1, {(0,): (0,), (1,): (0, 0)}), (2, 2, 0, {(): (0,)}), (2, 2, 1, {(0,): (0,)}), (2, 2, 1, {(0,): (0,), (2,): (1,)}),
          (2, 2, 1, {(0,): (0,), (1,): (2,)}), (2, 2, 1, {(0,): (0,), (1,): (-1,)}), (2, 2, 1, {(0,): (0,), (1,): (1,), (2,): (1, 1)}),
          (2, 2, 2, {(0,): (0,), (1,): (1,)})]),
        ("from_codewords", fv.from_codewords, [([(0,), (1,)],), ([(0,), (1, 0), (1, 1)],)], [([(0,), ()],), ([(0,)],), dict(codewords=[(0,), (1,)], source_cardinality=1), dict(codewords=[(0,), (1, 0), (1, 1)], source_cardinality=2)]),
        ("from_lengths", fv.from_lengths, [([1, 1],), ([1, 2, 2],), dict(lengths=[1, 1, 1], target_cardinality=3)], [([[1, 1]],), ([1],), dict(lengths=[1, 1], target_cardinality=1), ([0, 1],), ([1, 1, 1],), ([1, -1],), dict(lengths=[1, 2, 2, 2])]),
        ("VariableToFixedCode", vf, [(2, 2, 1, {(0,): (0,), (1,): (1, 0)}), (2, 2, 2, {(0, 0): (0,), (0, 1): (1,)})],
         [(1, 2, 1, {(0,): (0,)}), (2, 1, 1, {(0,): (0,), (1,): (0, 0)}), (2, 2, 0, {(): (0,)}), (2, 2, 1, {(2,): (0,)}), (2, 2, 2, {(0,): (0,)}),
          (2, 2, 1, {(0,): (2,)}), (2, 2, 1, {(0,): ()}), (2, 2, 1, {(0,): (-1,)}), (2, 2, 1, {(-1,): (0,)})]),
        ("from_sourcewords", vf.from_sourcewords, [([(0,), (1,)],), ([(0, 0), (0, 1), (1,)],)], [([(0,), ()],), dict(sourcewords=[(0,), (1,)], target_cardinality=1)]),
        ("LempelZiv77Code", lz(k.LempelZiv77Code), [(1, 1, 2), (4, 2, 3, 3), (2, 2, 2, 2, [0, 1])],
         [(0, 1, 2), (1, 0, 2), (1, 1, 1), (1, 1, 2, 1), (2, 2, 2, 2, [0]), (2, 2, 2, 2, [0, 1, 0])]),
        ("LempelZivSSCode", lz(k.LempelZivSSCode), [(1, 1, 2), (4, 2, 3, 3), (2, 2, 2, 2, [0, 1])],
         [(0, 1, 2), (1, 0, 2), (1, 1, 1), (1, 1, 2, 1), (2, 2, 2, 2, [0]), (2, 2, 2, 2, [0, 1, 0])]),
        ("LempelZiv78Code", k.LempelZiv78Code, [(2,), (3, 3)], [(1,), (0,), (2, 1), (2, 0)]),
        ("LempelZivWelchCode", k.LempelZivWelchCode, [(2,), (3, 3)], [(1,), (0,), (2, 1), (2, 0)]),
        ("ScalarQuantizer", k.ScalarQuantizer, [([0.0, 1.0], [0.5]), ([-1.0, 0.0, 1.0], [-0.5, 0.5])], [([0.0, 1.0], []), ([0.0, 1.0], [0.2, 0.5]), ([0.0, 1.0], [1.5]), ([1.0, 0.0], [0.5]), ([0.0, 0.0], [0.0])]),
        ("UniformQuantizer", k.UniformQuantizer, [(2, 1.0), (3, 0.5)], [(1, 1.0), (0, 1.0), (2, 0.0), (2, -1.0)]),
        ("BinarySymmetricChannel", k.BinarySymmetricChannel, [(0.0,), (0.25,), (1.0,)], [(-1e-9,), (1.0 + 1e-9,), (2,), (float("nan"),)]),
        ("BinaryErasureChannel", k.BinaryErasureChannel, [(0.0,), (0.25,), (1.0,)], [(-1e-9,), (1.0 + 1e-9,), (2,), (float("nan"),)]),
        ("ZChannel", k.ZChannel, [(0.0,), (0.25,), (1.0,)], [(-1e-9,), (1.0 + 1e-9,), (2,), (float("nan"),)]),
        ("DiscreteMemorylessChannel", k.DiscreteMemorylessChannel, [(W,), (np.eye(2),)], [(W[0],), (W * 1.01,), (W - W[0, 0] * 1.5 * np.array([1, -1, 0]),), ([W],)]),
        ("GaussianChannel", k.GaussianChannel, [(0.0,), (1.5,)], [(-1e-9,), (-1,), (float("nan"),)]),
        ("DiscreteMemorylessSource", k.DiscreteMemorylessSource, [(1,), (n,), (p3,)], [(0,), (-1,), (p3 * 2,), ([p3],), ([1.5, -0.5],)]),
        ("MarkovChain", k.MarkovChain, [(np.eye(2),), ([[0.5, 0.5], [1.0, 0.0]],)], [(W,), ([0.5, 0.5],), ([[0.5, 0.4], [1.0, 0.0]],), ([[1.5, -0.5], [1.0, 0.0]],)]),
        ("BiorthogonalConstellation", k.BiorthogonalConstellation, [(2,), (4,)], [(3,), (5,), (1,)]),
        ("APSKConstellation", lambda *a: k.APSKConstellation(*a).matrix, [((4, 8), (1.0, 2.0)), ((4, 8), (1.0, 2.0), 0.1), ((4,), (1.0,), (0.1,)), ((2, 4), (1.0, 2.0), (0.0, 0.1))],
         [((4, 8), (1.0,)), ((4,), (1.0, 2.0)), ((4, 8), (1.0, 2.0, 3.0)), ((4, 8), (1.0, 2.0), (0.1,)), ((4, 8), (1.0, 2.0), (0.1, 0.2, 0.3)), ((4, 8), (1.0,), (0.1,))]),
        ("QAMConstellation", k.QAMConstellation, [(4,), (16,), ((2, 4),)], [(8,), (5,), (32,)]),
        ("CrossQAMConstellation", k.CrossQAMConstellation, [(32,), (128,)], [(8,), (16,), (64,), (33,), (0,)]),
        ("Constellation", k.Constellation, [([1, -1],), ([[1, 0], [0, 1]],)], [([[[1.0]]],), (np.zeros((2, 2, 1)),)]),
        ("RaisedCosinePulse", k.RaisedCosinePulse, [(0,), (0.5,), (1,)], [(-1e-9,), (1 + 1e-9,), (float("nan"),)]),
        ("BeaulieuPulse", k.BeaulieuPulse, [(0,), (0.5,), (1,)], [(-1e-9,), (1 + 1e-9,), (float("nan"),)]),
        ("GaussianPulse", k.GaussianPulse, [(0.1,), (3,)], [(0,), (-1,), (float("nan"),)]),
        ("BarkerSequence", k.BarkerSequence, [(2,), (3,), (4,), (5,), (7,), (11,), (13,)], [(1,), (0,), (6,), (8,), (9,), (10,), (12,), (14,), (-2,)]),
        ("WalshHadamardSequence", k.WalshHadamardSequence, [(1,), (2,), (8, "natural", 7), (8, "sequency", 0)], [(3,), (6,), (8, "natural", 8), (8, "natural", -1), (8, "other"), (8, "sequency", 8)]),
        ("ZadoffChuSequence", k.ZadoffChuSequence, [(3,), (5, 4), (5, 1)], [(4,), (2,), (5, 0), (5, 5), (5, -1)]),
        ("BinarySequence", lambda **kw: k.BinarySequence(**kw), [dict(bit_sequence=[0, 1]), dict(polar_sequence=[1, -1])], [dict(), dict(bit_sequence=[0, 1], polar_sequence=[1, -1])]),
        ("bits_to_int order", lambda o: k.bits_to_int([1, 0], bit_order=o), [("LSB-first",), ("MSB-first",)], [("lsb-first",), ("",), (None,)]),
        ("int_to_bits order", lambda o: k.int_to_bits(1, 2, bit_order=o), [("LSB-first",), ("MSB-first",)], [("lsb-first",), ("",), (None,)]),
        ("sampling_rate_compress", lambda f, o: k.sampling_rate_compress([1, 2, 3, 4], f, o), [(1, 0), (2, 1)], [(0, 0), (-1, 0), (2, 2), (2, -1), (1, 1)]),
        ("sampling_rate_expand", lambda f, o: k.sampling_rate_expand([1, 2, 3, 4], f, o), [(1, 0), (2, 1)], [(0, 0), (-1, 0), (2, 2), (2, -1), (1, 1)]),
        ("convolve", lambda a, b: k.convolve(a, b), [([1], [1]), ([[1, 2]], [1])], [([[1, 2]], [[1]])]),
        ("boxplus", k.boxplus, [([1.0], [2.0]), (1, 2)], [([1.0], [1.0, 2.0])]),
        ("marcum_q", k.marcum_q, [(1, 0, 0), (2, 1.5, 2.5)], [(0, 1, 1), (-1, 1, 1), (1, -1, 1), (1, 1, -1), (1, [1, -1], 1)]),
        ("gaussian_q_inv", k.gaussian_q_inv, [(0,), (1,), (0.5,)], [(-0.1,), (1.1,)]),
        ("entropy base", lambda b: k.entropy(p3, b), [(2,), ("e",), (0.5,), (10,)], [(1,), (0,), (-2,), ("d",), (1.0,), (float("nan"),), ("",)]),
        ("entropy", k.entropy, [(p3,), ([1.0],)], [(p3 * 1.01,), ([p3],), ([1.5, -0.5],)]),
        ("relative_entropy", k.relative_entropy, [(p3, p3)], [(p3, [0.5, 0.5]), (p3, p3 * 1.1), (p3 * 1.1, p3)]),
        ("binary_entropy", k.binary_entropy, [(0.0,), (1.0,)], [(-1e-9,), (1 + 1e-9,), (float("nan"),)]),
        ("binary_entropy_inv", k.binary_entropy_inv, [(0.0,), (1.0,)], [(-1e-9,), (1 + 1e-9,), (float("nan"),)]),
        ("UnaryCode.encode", lambda x: k.UnaryCode().encode(x), [([0, 1],), ([],)], [([-1],), ([0, -1],)]),
        ("FibonacciCode.encode", lambda x: k.FibonacciCode().encode(x), [([1, 2],), ([],)], [([0],), ([1, 0],), ([-1],)]),
        ("UnaryCode.decode", lambda x: k.UnaryCode().decode(x), [([1, 0],), ([],)], [([1],), ([2, 0],), ([-1, 0],)]),
        ("FibonacciCode.decode", lambda x: k.FibonacciCode().decode(x), [([1, 1],), ([],)], [([1],), ([0, 1],), ([2, 1, 1],), ([1, 1, 0],)]),
    ]


@section("X06", 12, 60)
def table(m, r, i):
    for what, f, good, bad in restrictions(r):
        if f is None:
            continue
        call = lambda a: f(**a) if isinstance(a, dict) else f(*a)
        for a in good:
            m.note(what=what, args=a)
            st, v = raised(lambda: call(a))
            m.ok(st == "ok", lambda: f"{what}{a}: admissible parameters refused ({v})")
        for a in bad:
            m.note(what=what, args=a)
            m.refuses(lambda: call(a), f"{what}{a}")
            m.tag(what)


@section("X06", 400, 6000)
def alphabets(m, r, i):
    """Symbols outside the alphabet of a coder, in any position of the stream, are refused and never silently coded."""
    e = entry(r, True, [catalog.e_fv, catalog.e_vf, catalog.e_lz, catalog.e_integer, catalog.e_labeling][i % 5])
    o = e.make()
    m.note(obj=e.desc)
    if e.family == "labeling":
        M, nb = o.cardinality, o.num_bits
        x = r.integers(0, M, size=int(r.integers(1, 6)))
        j = int(r.integers(0, x.size))
        x[j] = [M, -1, M + 3, -M][int(r.integers(0, 4))]
        m.refuses(lambda: o.indices_to_bits(x), f"{e.desc}: index {x[j]} at {j}")
        b = r.integers(0, 2, size=nb * int(r.integers(1, 4)))
        b[int(r.integers(0, b.size))] = [2, -1, 3][int(r.integers(0, 3))]
        m.refuses(lambda: o.bits_to_indices(b), f"{e.desc}: bits {b}")
        return
    if e.family in ("fv", "vf"):
        X, Y = o.source_cardinality, o.target_cardinality
        ok = (o.is_prefix_free() and o.is_uniquely_decodable()) if e.family == "fv" else (o.is_fully_covering() and o.is_uniquely_encodable() and o.is_prefix_free())
        if not ok:
            return m.trivial()
        blk = o.source_block_size if e.family == "fv" else 1
    elif e.family == "lz":
        X, Y, blk = o.source_cardinality, o.target_cardinality, 1
    else:
        X, Y, blk = None, 2, 1
    lo = 1 if isinstance(o, komm.FibonacciCode) else 0
    x = r.integers(lo, X or 9, size=blk * int(r.integers(1, 7)))
    good = o.encode(x)
    j = int(r.integers(0, x.size))
    y = x.copy()
    y[j] = (lo - 1 - int(r.integers(0, 3))) if X is None or r.integers(0, 2) else X + int(r.integers(0, 3))
    m.refuses(lambda: o.encode(y), f"{e.desc}: symbol {y[j]} at position {j} of {x.size}")
    z = np.array(good)
    if z.size and e.family != "lz":  # the Lempel-Ziv decoders take their own streams on trust
        j = int(r.integers(0, z.size))
        z[j] = [-1, Y, Y + 2][int(r.integers(0, 3))]
        m.refuses(lambda: o.decode(z), f"{e.desc}: coded symbol {z[j]} at position {j} of {z.size}")


# ---------------------------------------------------------------- X08
def outcome(op, o):
    st, v = raised(lambda: op.apply(o))
    return st, image(v) if st == "ok" else v


def agree(a, b):
    return a[0] == b[0] and same(a[1], b[1])


@section("X08", 900, 12000)
def copies(m, r, i):
    fam = FAMILIES[i % len(FAMILIES)]
    e = entry(r, True, fam)
    ops = [op for op in e.ops if not op.random]
    m.note(obj=e.desc)
    how = (i // len(FAMILIES)) % 3
    if how == 2:
        try:
            pickle.dumps(e.make())
        except Exception as ex:
            why = str(ex)
            m.ok("lambda" in why or "local object" in why or "bump" in why or "<" in why and "pdf" in why, lambda: f"{e.desc} cannot be pickled: {why[:200]}")
            return m.trivial()
    dup = [copy.copy, copy.deepcopy, lambda x: pickle.loads(pickle.dumps(x))][how]
    name = ["copy.copy", "copy.deepcopy", "pickle"][how]
    fresh = e.make()
    want = [outcome(op, fresh) for op in ops]
    o = e.make()
    used = int(r.integers(0, len(ops) + 1)) if ops else 0
    for t in r.permutation(len(ops))[:used]:
        outcome(ops[t], o)
    d = dup(o)
    m.ok(type(d) is type(o), f"{name} of {e.desc}: {type(d).__name__}")
    for t in r.permutation(len(ops)):
        got = outcome(ops[t], d)
        m.ok(agree(got, want[t]), lambda: f"{name} of {e.desc}: {ops[t]} gave {short(got, 120)}, the original gives {short(want[t], 120)}")
    for t in r.permutation(len(ops)):
        got = outcome(ops[t], o)
        m.ok(agree(got, want[t]), lambda: f"original of a {name}, {e.desc}: {ops[t]} gave {short(got, 120)}, expected {short(want[t], 120)}")
    m.tag(f"{name}:{e.family}")


@section("X08", 60, 600)
def random_copies(m, r, i):
    """A deep copy or pickle of a random component continues its stream independently."""
    from .p_cross import rand_random
    mk, ops, desc = rand_random(r)
    s = int(r.integers(0, 2**60))
    o = mk(rng=np.random.default_rng(s))
    name, args = ops[int(r.integers(0, len(ops)))]
    m.note(obj=desc, op=name)
    getattr(o, name)(*args)
    d = copy.deepcopy(o) if i % 2 else pickle.loads(pickle.dumps(o))
    a = image(getattr(o, name)(*args))
    b = image(getattr(d, name)(*args))
    m.ok(same(a, b), lambda: f"{desc}: copied generator state, yet {short(a, 100)} / {short(b, 100)}")


# ---------------------------------------------------------------- X09
@section("X09", 220, 3000)
def shared_object(m, r, i):
    fam = FAMILIES[i % len(FAMILIES)]
    e = entry(r, bool(i % 3), fam)
    ops = [op for op in e.ops if not op.random]
    m.note(obj=e.desc)
    if not ops:
        return m.trivial()
    fresh = e.make()
    want = [outcome(op, fresh) for op in ops]
    o = e.make()
    nt = int(r.integers(2, 5))
    plans = [r.permutation(len(ops)).tolist() * 2 for _ in range(nt)]
    bad, switches, last = [], [0], [None]
    start = threading.Barrier(nt)

    def work(k):
        start.wait()
        for t in plans[k]:
            if last[0] != k:
                switches[0] += 1
                last[0] = k
            try:
                got = outcome(ops[t], o)
            except BaseException as ex:
                got = ("raise", type(ex).__name__)
            if not agree(got, want[t]):
                bad.append((t, got))
                return

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        ts = [threading.Thread(target=work, args=(k,)) for k in range(nt)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    m.ok(not bad, lambda: f"{e.desc} shared by {nt} threads: {ops[bad[0][0]]} gave {short(bad[0][1], 120)}, alone {short(want[bad[0][0]], 120)}")
    m.tag("thread switches between operations", switches[0])
    m.tag("threads", nt)


STORM = [catalog.e_decoder, catalog.e_lz, catalog.e_decoder] + [f for f in FAMILIES if f not in (catalog.e_decoder, catalog.e_lz)]
STORM = [g for f in STORM[3:] for g in (catalog.e_decoder, f)] + STORM[:2]


@section("X09", 34, 260)
def thread_storm(m, r, i):
    """Many threads repeat the short operations of one shared object without pause: a race with a
    window of microseconds needs thousands of overlapping calls to be met."""
    fam = STORM[i % len(STORM)]
    e = entry(r, True, fam)
    ops = [op for op in e.ops if not op.random]
    m.note(obj=e.desc)
    if not ops:
        return m.trivial()
    fresh = e.make()
    cheap = []
    for op in ops:
        t = time.perf_counter()
        w = outcome(op, fresh)
        if time.perf_counter() - t < 0.02:
            cheap.append((op, w))
    if not cheap:
        return m.trivial()
    o = e.make()
    nt, limit = 8, 0.6
    bad, calls = [], [0] * nt
    start = threading.Barrier(nt)

    def work(k):
        start.wait()
        end, c = time.perf_counter() + limit, k
        while time.perf_counter() < end and not bad:
            op, w = cheap[c % len(cheap)]
            c += 1
            try:
                got = outcome(op, o)
            except BaseException as ex:
                got = ("raise", type(ex).__name__)
            if not agree(got, w):
                bad.append((op, got, w))
        calls[k] = c - k

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=work, args=(k,)) for k in range(nt)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    m.ok(not bad, lambda: f"{e.desc} shared by {nt} busy threads: {bad[0][0]} gave {short(bad[0][1], 120)}, alone {short(bad[0][2], 120)}")
    m.tag("calls in the storm", sum(calls))
