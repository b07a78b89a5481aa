"""Source of truth for properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
S = "src/komm/"
P = []


def p(id, title, statement, quant, why, files, mech, observe, over=("inputs",), state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": quant},
        "why_tests_cant": why,
        "anchors": {
            "files": [S + f for f in files],
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [{"name": a, "where": S + b} for a, b in mech],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    })


# ---------------------------------------------------------------- algebra
p("A01", "Binary polynomial arithmetic is exact arithmetic in GF(2)[X]",
  "For all binary polynomials, sums, products, powers, shifts, quotients and remainders, gcd, extended gcd (with its Bezout identity) and lcm of any number of arguments, reciprocals and evaluation at ring elements are exactly those of GF(2)[X]. Conversions among integer value, coefficient array (any width that fits), and exponent list round-trip; a polynomial equals, and hashes as, its integer value; division by the zero polynomial is refused.",
  "all binary polynomials of any degree (including 0 and 1), all argument counts, widths and evaluation points",
  "tests fix a dozen polynomials of degree at most ~10; the identities range over an infinite ring.",
  ["_algebra/BinaryPolynomial.py", "_algebra/domain.py", "_algebra/ring.py"],
  [("bit-twiddled multiply/divmod", "_algebra/BinaryPolynomial.py"), ("Euclid", "_algebra/domain.py"), ("square-and-multiply, Horner", "_algebra/ring.py")],
  ["results of BinaryPolynomial operators and classmethods"])
p("A02", "Irreducible and primitive polynomial claims are true",
  "A binary polynomial is reported irreducible exactly when it has no factor of smaller positive degree, and primitive exactly when it is irreducible and X has full multiplicative order modulo it. Every default field modulus (degrees 1 to 24) and every default maximum-length-sequence polynomial is primitive of the stated degree.",
  "all binary polynomials; all default degrees 1..24",
  "tests list a few polynomials; no test re-derives the predicate by factoring.",
  ["_algebra/BinaryPolynomial.py", "_algebra/Integers.py", "_algebra/FiniteBifield.py"],
  [("Rabin irreducibility test", "_algebra/BinaryPolynomial.py"), ("order test over prime factors", "_algebra/BinaryPolynomial.py"), ("default polynomial table", "_algebra/BinaryPolynomial.py")],
  ["is_irreducible", "is_primitive", "FiniteBifield(degree).modulus"])
p("A03", "Binary rational functions form a field kept in lowest terms",
  "Sums, differences, products, quotients, inverses and integer powers (negative included) of fractions of binary polynomials agree with cross-multiplication over GF(2)[X], and the field axioms hold. Every fraction is held in lowest terms, so equality holds exactly when the cross products agree; a zero denominator, or inverting zero, is refused.",
  "all pairs/triples of binary polynomial fractions and all integer exponents",
  "a few hand-picked fractions are tested; axioms quantify over all of them.",
  ["_algebra/BinaryPolynomialFraction.py", "_algebra/field.py"],
  [("gcd normalisation on construction", "_algebra/BinaryPolynomialFraction.py")],
  ["BinaryPolynomialFraction operators"])
p("A04", "Finite bifields are fields of order 2^m with correct derived operations",
  "For every irreducible modulus the elements form a field of order 2^m: results stay reduced, every non-zero element has an inverse, powers (negative included) follow repeated multiplication, and mixing elements of different fields or inverting zero is refused. Logarithms, conjugates and minimal polynomials are correct: base**log equals the element, conjugates are the Frobenius orbit, the minimal polynomial is the least-degree binary polynomial vanishing at the element, and the root search over the field finds every root of a polynomial, each once.",
  "all degrees, all irreducible moduli (primitive or not), all field elements and exponents",
  "tests cover a couple of small fields with the default modulus.",
  ["_algebra/FiniteBifield.py", "_algebra/field.py", "_algebra/ring.py"],
  [("reduction modulo the field modulus", "_algebra/FiniteBifield.py"), ("xgcd inverse", "_algebra/FiniteBifield.py"), ("conjugate orbit product", "_algebra/FiniteBifield.py")],
  ["field element operators, inverse, logarithm, conjugates, minimal_polynomial"])

p("A05", "Integers and the generic ring and domain algorithms are exact",
  "The integer ring element type behaves as the Python integers it wraps (sums, differences, negation, products, floor division with remainder, equality; division by zero refused). Over any ring of the library (integers, binary polynomials, their fractions, finite fields) the generic powers, Horner evaluations and determinants equal their defining sums, and over the integers and binary polynomials gcd, extended gcd with its Bezout identity and lcm are exact up to sign, zero arguments included.",
  "all integers, polynomials, fractions and field elements, all exponents, coefficient lists and small square matrices",
  "tests use a handful of small values and never cross the generic algorithms with every ring.",
  ["_algebra/Integers.py", "_algebra/ring.py", "_algebra/domain.py", "_algebra/field.py"],
  [("square-and-multiply, Horner, cofactor expansion", "_algebra/ring.py"), ("Euclid", "_algebra/domain.py")],
  ["komm.Integer operators", "generic functions over ring elements"])

# ---------------------------------------------------------------- block codes
p("B01", "Block encoding, checking and inverse encoding are mutually consistent",
  "For every linear block code of positive dimension, encoding a message equals the message times the generator matrix over GF(2), the check map of a word equals the word times the transposed check matrix, and G has rank k, H has rank m = n - k and G H^T = 0. Inverse encoding recovers every message from its codeword and is refused for any input that contains a non-codeword.",
  "all codes constructible from generator/check matrices, parity submatrices with any information set, cyclic (both encodings), and every named family; all messages and words; any batch shape",
  "tests check named examples and small fixed matrices, never arbitrary matrices or information sets.",
  ["_error_control_block/base.py", "_error_control_block/BlockCode.py", "_error_control_block/SystematicBlockCode.py", "_error_control_block/CyclicCode.py", "_error_control_block/PolarCode.py", "_util/matrices.py"],
  [("null matrix / pseudo-inverse over GF(2)", "_util/matrices.py"), ("blockwise matrix products", "_error_control_block/base.py")],
  ["encode", "check", "inverse_encode", "generator_matrix", "check_matrix"], over=("inputs", "configurations"))
p("B02", "Code enumerations report the true codewords, weights and distances",
  "For every block code small enough to enumerate, the list of codewords is the encoding of every message in LSB-first order, the weight distribution counts those codewords by Hamming weight, and the minimum distance and packing radius are the true ones. These answers do not depend on the order in which the enumeration methods are called.",
  "all block codes of enumerable size, all call orders of the enumeration methods",
  "tests compare published numbers of named codes; shortcuts and cached paths are not compared to brute force.",
  ["_error_control_block/base.py", "_error_control_block/*.py"],
  [("batched enumeration with cached shortcut", "_error_control_block/base.py"), ("closed-form overrides in named codes", "_error_control_block")],
  ["codewords", "codeword_weight_distribution", "minimum_distance", "packing_radius"], over=("inputs", "configurations", "histories"))
p("B03", "Coset leaders and the standard array are correct and of minimum weight",
  "For every block code, row i of the coset-leader table has the syndrome i (LSB-first) and no word with that syndrome is lighter; the coset-leader weight distribution and covering radius follow from it whatever the call order. The Slepian array places at (i, j) the leader of syndrome i plus the codeword of message j, so its entries are all 2^n words, each once.",
  "all block codes with enumerable cosets, all syndromes, all call orders",
  "tests compare a few published distributions.",
  ["_error_control_block/base.py", "_error_control_block/SlepianArray.py"],
  [("breadth-first search over syndromes", "_error_control_block/base.py")],
  ["coset_leaders", "coset_leader_weight_distribution", "covering_radius", "SlepianArray.entry/row/col"], over=("inputs", "configurations", "histories"))
p("B04", "Named block code families have their defining parameters and structure",
  "For every admissible parameter, Hamming, simplex, Golay, Reed-Muller, repetition, single-parity-check, Cordaro-Wagner and lexicode constructions have their documented length, dimension and minimum distance, and their defining structure: dual pairs are dual, extended codes have even weights (or a zero column, for the simplex code), Reed-Muller codes are nested and self-dual-related, lexicodes are the greedy lexicographic sets.",
  "all family parameters of enumerable size",
  "tests verify a few parameter values per family; the defining property itself is never checked.",
  ["_error_control_block/HammingCode.py", "_error_control_block/SimplexCode.py", "_error_control_block/GolayCode.py", "_error_control_block/ReedMullerCode.py", "_error_control_block/Lexicode.py", "_error_control_block/CordaroWagnerCode.py", "_error_control_block/RepetitionCode.py", "_error_control_block/SingleParityCheckCode.py"],
  [("family matrix constructors", "_error_control_block")],
  ["length, dimension, minimum_distance, generator_matrix of family codes"], over=("configurations",))
p("B05", "Cyclic codes are ideals: shift-closed, generated by a divisor of X^n+1",
  "For every divisor of X^n + 1, given as generator or check polynomial and with systematic or non-systematic encoding, the codewords are exactly the multiples of the generator polynomial of degree below n, closed under cyclic shift. Systematic encoding leaves the message verbatim in the last k positions, non-systematic encoding is multiplication by the generator polynomial, the check and generator polynomials multiply to X^n + 1, and non-divisors are refused.",
  "all lengths, all divisors, both encoding modes, all messages",
  "tests cover a handful of (n, g) pairs.",
  ["_error_control_block/CyclicCode.py"],
  [("systematic and non-systematic strategies", "_error_control_block/CyclicCode.py")],
  ["CyclicCode.encode/check/codewords/generator_polynomial"], over=("inputs", "configurations"))
p("B06", "BCH codes have consecutive roots and at least the designed distance",
  "Every BCH code has length 2^mu - 1 and a generator polynomial that is the least one having alpha, ..., alpha^(delta-1) as roots, so its minimum distance is at least delta; a delta that is not a Bose distance is refused with the next Bose distance. The BCH syndromes of a word are its values at those powers and are all zero exactly for codewords.",
  "all mu and all delta accepted or refused; all words",
  "tests check published (n, k, delta) rows only.",
  ["_error_control_block/BCHCode.py", "_algebra/FiniteBifield.py"],
  [("product of distinct minimal polynomials", "_error_control_block/BCHCode.py")],
  ["BCHCode.generator_polynomial, bch_syndrome, minimum_distance"], over=("inputs", "configurations"))
p("B07", "Polar and Reed-Muller codes follow the Kronecker-power construction",
  "For every mu and frozen set, polar encoding puts the message on the active positions and zeros on the frozen ones and multiplies by the mu-fold Kronecker power of [[1,0],[1,1]]; active and frozen positions partition the indices. Reed-Muller codes are spanned by the evaluations of all monomials of degree at most rho, and each Reed partition splits the positions into equal sets whose check sums yield the corresponding message bit.",
  "all mu, all frozen sets, all (rho, mu), all messages",
  "tests cover one or two codes.",
  ["_error_control_block/PolarCode.py", "_error_control_block/ReedMullerCode.py"],
  [("polar butterfly", "_error_control_block/PolarCode.py"), ("monomial generator matrix and Reed partitions", "_error_control_block/ReedMullerCode.py")],
  ["PolarCode.encode, generator_matrix, active", "ReedMullerCode.generator_matrix, reed_partitions"], over=("inputs", "configurations"))

# ---------------------------------------------------------------- decoders
p("D01", "Hard-decision table and exhaustive decoders are maximum likelihood",
  "For every block code and every binary received word, the syndrome-table decoder and the hard-decision exhaustive-search decoder output the message of a codeword at the minimum Hamming distance from the word. In particular they undo every error pattern of weight up to the packing radius, for every code type and either cyclic encoding.",
  "all codes with enumerable codewords/cosets, all 2^n received words, batches",
  "tests decode a few words per code.",
  ["_error_control_decoders/SyndromeTableDecoder.py", "_error_control_decoders/ExhaustiveSearchDecoder.py", "_error_control_block/base.py"],
  [("syndrome to leader lookup", "_error_control_decoders/SyndromeTableDecoder.py"), ("argmin over codewords", "_error_control_decoders/ExhaustiveSearchDecoder.py")],
  ["decode outputs"])
p("D02", "Algebraic decoders correct every error pattern within their guarantee",
  "The Berlekamp decoder for any BCH code corrects every pattern of at most floor((delta-1)/2) errors, and the Reed decoder for any Reed-Muller code corrects every pattern of fewer than half the minimum distance errors, from hard decisions or from soft values, in any integer or boolean representation of the bits. The Reed decoder's soft mode follows the weighted majority rule on the least reliable member of each check sum.",
  "all BCH/Reed-Muller codes of moderate length, all messages, all correctable error patterns, dtypes, batches",
  "tests try a few random error patterns on a couple of codes.",
  ["_error_control_decoders/BerlekampDecoder.py", "_error_control_decoders/ReedDecoder.py"],
  [("Berlekamp algorithm and Chien-like root search", "_error_control_decoders/BerlekampDecoder.py"), ("majority logic over Reed partitions", "_error_control_decoders/ReedDecoder.py")],
  ["decode outputs"])
p("D03", "Soft-decision exhaustive and Wagner decoders minimise Euclidean metric",
  "For every real received vector (positive favours bit 0), the soft exhaustive-search decoder outputs the message whose codeword in bipolar form is closest to, equivalently has largest correlation with, the vector. The Wagner decoder does the same for every single-parity-check code. Entries may be infinite, meaning a bit known for certain: the decision is then the best among the codewords that agree with those bits.",
  "all codes of enumerable size, all real vectors (no ties), batches",
  "tests check a few vectors.",
  ["_error_control_decoders/ExhaustiveSearchDecoder.py", "_error_control_decoders/WagnerDecoder.py"],
  [("metric argmin", "_error_control_decoders/ExhaustiveSearchDecoder.py"), ("flip least reliable bit", "_error_control_decoders/WagnerDecoder.py")],
  ["decode outputs"])
p("D04", "Successive cancellation decodes polar codes by the exact recursion",
  "For every polar code and L-value vector, the successive-cancellation decoder's soft outputs are the L-values of the active bits obtained, bit by bit, from the exact box-plus/sum recursion given the previous decisions (frozen bits zero), and its hard outputs are their signs. Consequently any noiseless codeword decodes to its message, including from infinite L-values.",
  "all mu, frozen sets, L-value vectors (finite or infinite), batches",
  "one or two worked examples are tested.",
  ["_error_control_decoders/SCDecoder.py", "_util/special_functions.py"],
  [("tree traversal with beliefs and decisions", "_error_control_decoders/SCDecoder.py"), ("boxplus", "_util/special_functions.py")],
  ["decode outputs"])
p("D05", "Viterbi decoding of terminated convolutional codes is maximum likelihood",
  "For every terminated convolutional code (direct truncation or zero termination) and every received word, the Viterbi decoder outputs the message of a codeword of minimum Hamming distance (hard input) or maximum correlation (soft input, positive favours bit 0). With no channel errors it returns the transmitted message exactly; infinite soft inputs mean bits known for certain, and the decision is the best codeword that agrees with them.",
  "all convolutional encoders (feedforward and feedback, any memory, also memoryless and multi-input), block counts, received words",
  "tests decode textbook examples.",
  ["_error_control_decoders/ViterbiDecoder.py", "_finite_state_machine/MealyMachine.py", "_error_control_convolutional/TerminatedConvolutionalCode.py"],
  [("add-compare-select and traceback", "_finite_state_machine/MealyMachine.py"), ("termination strategies", "_error_control_convolutional")],
  ["ViterbiDecoder.decode"], over=("inputs", "configurations"))
p("D06", "BCJR decoding yields the exact bitwise posteriors",
  "For every terminated convolutional code (direct truncation or zero termination) and every vector of input L-values, the soft BCJR output is, for each message bit, the logarithm of the ratio of total likelihoods of codewords with that bit 0 and 1 (uniform messages); hard output is its sign. Large L-values, or infinite ones (bits known for certain), do not turn the result into nan or a wrong sign.",
  "all convolutional encoders, block counts, L-value vectors of any magnitude",
  "tests check textbook examples with small vectors.",
  ["_error_control_decoders/BCJRDecoder.py", "_finite_state_machine/MealyMachine.py"],
  [("forward-backward in the log domain", "_finite_state_machine/MealyMachine.py")],
  ["BCJRDecoder.decode"], over=("inputs", "configurations"))
p("D07", "Streaming Viterbi output is independent of how the stream is cut",
  "Decoding a received stream in one call or in any sequence of chunks gives the same bits, and they lag the message by exactly the traceback length: the decoder emits the decision of the best survivor that many stages back. With no channel errors and long enough traceback the output is the delayed message, preceded by the initial padding, also when soft inputs are infinite.",
  "all convolutional encoders, traceback lengths, chunkings and received streams",
  "tests decode a couple of streams in one call.",
  ["_error_control_convolutional/ViterbiStreamDecoder.py", "_finite_state_machine/MealyMachine.py"],
  [("survivor path memory carried between calls", "_finite_state_machine/MealyMachine.py")],
  ["ViterbiStreamDecoder.decode"], over=("inputs", "histories", "configurations"))

# ---------------------------------------------------------------- convolutional
p("V01", "Convolutional encoding is multiplication by the transfer function matrix",
  "For every convolutional code (feedforward or feedback with feedback polynomials of non-zero constant term, low-rate and high-rate forms included), encoding from the zero state equals multiplying the message power series by the rational transfer function matrix over GF(2), interleaved per stage. Encoding a stream in chunks through the reported states equals encoding it at once, from any initial state.",
  "all generator matrices, messages, initial states and chunkings",
  "tests encode textbook examples.",
  ["_error_control_convolutional/base.py", "_error_control_convolutional/ConvolutionalCode.py", "_error_control_convolutional/LowRateConvolutionalCode.py", "_error_control_convolutional/HighRateConvolutionalCode.py", "_finite_state_machine/MealyMachine.py"],
  [("finite-state machine derived from state space", "_error_control_convolutional/base.py")],
  ["encode", "encode_with_state", "generator_matrix"], over=("inputs", "configurations", "histories"))
p("V02", "All representations of a convolutional code describe the same encoder",
  "The state-space matrices, the finite-state machine and the generator matrix of every convolutional code describe the same input-output map from every state. Constraint lengths, overall constraint length, memory order and degree equal those defined by the polynomials, and the number of states is two to the degree (number of delay elements).",
  "all feedforward/feedback polynomial matrices, low-rate rows and high-rate parity rows",
  "tests check a few textbook encoders.",
  ["_error_control_convolutional/base.py", "_error_control_convolutional/ConvolutionalCode.py", "_error_control_convolutional/LowRateConvolutionalCode.py", "_error_control_convolutional/HighRateConvolutionalCode.py"],
  [("controller / observer canonical forms", "_error_control_convolutional")],
  ["state_space_representation", "finite_state_machine", "generator_matrix", "constraint_lengths, memory_order, degree"], over=("configurations",))
p("V03", "Free distance and catastrophicity of convolutional codes are true",
  "An encoder is reported catastrophic exactly when some infinite-weight input yields a finite-weight output (for feedforward encoders: when the gcd of the full-size minors is not a power of D). For a non-catastrophic encoder the reported free distance is the smallest weight of any non-zero output sequence.",
  "all convolutional encoders of small overall constraint length",
  "tests compare published tables; no independent search.",
  ["_error_control_convolutional/base.py", "_util/matrices.py"],
  [("shortest path over the state graph", "_error_control_convolutional/base.py"), ("invariant factors", "_util/matrices.py")],
  ["free_distance", "is_catastrophic"], over=("configurations",))
p("V04", "Termination modes produce codewords with the promised trellis ends",
  "A terminated code's codewords are the encoder's outputs for the message, started and ended as its mode promises: direct truncation starts at zero and stops, zero termination appends a tail that drives every message to the zero state, tail-biting starts in the very state it ends in. Length, dimension and rate follow from the block count and mode, and the resulting block code is linear.",
  "all convolutional encoders, block counts, the three modes, all messages",
  "tests cover a few feedforward encoders.",
  ["_error_control_convolutional/TerminatedConvolutionalCode.py"],
  [("tail solver / circular state solver", "_error_control_convolutional/TerminatedConvolutionalCode.py")],
  ["TerminatedConvolutionalCode.encode and parameters"], over=("inputs", "configurations"))

# ---------------------------------------------------------------- FSM
p("F01", "Mealy and Moore machines run their transition tables faithfully",
  "Processing an input sequence follows the transition and output tables symbol by symbol from the given initial state and returns the outputs and the state reached, for Mealy and Moore machines alike; processing a concatenation equals processing the parts in sequence. The input-edge and output-edge tables agree with the transitions.",
  "all transition/output tables, input sequences, initial states",
  "tests use one or two small machines.",
  ["_finite_state_machine/MealyMachine.py", "_finite_state_machine/MooreMachine.py"],
  [("table walk", "_finite_state_machine")],
  ["process", "input_edges", "output_edges"], over=("inputs", "configurations"))
p("F02", "Finite-state-machine Viterbi returns minimum-metric input sequences",
  "For every machine, metric function, observation sequence and initial metric vector, the Viterbi algorithm returns for each final state an input sequence leading there with the smallest total metric and that metric (infinite when unreachable), also when several inputs connect the same pair of states. The streaming variant, with its carried memory, yields the decisions a fixed-lag traceback from the best current state would yield.",
  "all machines (parallel transitions included), metrics, observations, initial metrics, lags",
  "tests use textbook trellises with no parallel edges.",
  ["_finite_state_machine/MealyMachine.py"],
  [("add-compare-select", "_finite_state_machine/MealyMachine.py")],
  ["viterbi", "viterbi_streaming"], over=("inputs", "configurations", "histories"))
p("F03", "Forward-backward posteriors equal brute-force marginals",
  "For every machine, log-metric function, observation sequence, input priors and initial and final state distributions, forward-backward returns at each stage the input-symbol posterior obtained by summing over all paths, each row summing to one, also when several inputs connect the same pair of states.",
  "all machines (parallel transitions included), metrics, priors, distributions",
  "tests use textbook trellises.",
  ["_finite_state_machine/MealyMachine.py"],
  [("alpha/beta recursion", "_finite_state_machine/MealyMachine.py")],
  ["forward_backward"], over=("inputs", "configurations"))

# ---------------------------------------------------------------- lossless
p("L01", "Fixed-to-variable codes decode what they encode",
  "For every prefix-free fixed-to-variable code with non-empty codewords, decoding the concatenated codewords returns exactly the source sequence, for every source cardinality, block size, target alphabet and input length that is a multiple of the block size. Encoding concatenates the codewords of the successive source blocks, however the code was built (mapping, codewords, lengths or pmf).",
  "all uniquely decodable mappings (prefix-free or not), all source sequences",
  "tests round-trip a few codes.",
  ["_lossless_coding/FixedToVariableCode.py", "_lossless_coding/util.py"],
  [("mapping-driven parser", "_lossless_coding/util.py")],
  ["encode", "decode", "enc_mapping"])
p("L02", "Source code constructions achieve their promised lengths and optimality",
  "Huffman codes (any block size, policy and assignment) are prefix-free with the smallest expected length of any prefix code for the pmf, canonical assignment being lexicographically increasing with the same lengths; Shannon codes use length ceil(log2 1/p) (at least one) for every positive-probability block; Fano codes are prefix-free binary codes from recursive most-balanced splits of the sorted pmf. The rate is the expected codeword length per source symbol under the given pmf, whatever the order in which the mapping was listed.",
  "all pmfs (including zero, equal and extreme probabilities), block sizes and options",
  "tests compare a few published codes; optimality is never checked against a minimum.",
  ["_lossless_coding/HuffmanCode.py", "_lossless_coding/ShannonCode.py", "_lossless_coding/FanoCode.py", "_lossless_coding/FixedToVariableCode.py"],
  [("heap merge and canonical assignment", "_lossless_coding/HuffmanCode.py"), ("length formula", "_lossless_coding/ShannonCode.py"), ("recursive split", "_lossless_coding/FanoCode.py"), ("rate", "_lossless_coding/FixedToVariableCode.py")],
  ["codewords", "lengths", "rate", "kraft_parameter"])
p("L03", "Code property predicates are correct",
  "Prefix-freeness, unique decodability, unique encodability and full covering are reported exactly when they hold: no codeword is a prefix of another, no two source strings share an encoding, no two parses of a source string exist, and every infinite source sequence has a parsed prefix. The Kraft parameter is the exact Kraft sum.",
  "all finite codebooks over any alphabet",
  "tests list a few codebooks.",
  ["_lossless_coding/util.py", "_lossless_coding/FixedToVariableCode.py", "_lossless_coding/VariableToFixedCode.py"],
  [("Sardinas-Patterson style test", "_lossless_coding/util.py")],
  ["is_prefix_free", "is_uniquely_decodable", "is_uniquely_encodable", "is_fully_covering", "kraft_parameter"])
p("L04", "Variable-to-fixed and Tunstall codes are lossless",
  "For every variable-to-fixed code that is fully covering and uniquely encodable, any source sequence encodes to whole target blocks and decodes to a sequence that starts with it (equal when parsing ends on a word boundary). Tunstall codes are prefix-free and fully covering, use at most target-cardinality^block-size words, and no code of that form has a larger expected sourceword length; the rate is target block size over expected sourceword length.",
  "all dictionaries, pmfs, target block sizes and source sequences",
  "tests check published dictionaries.",
  ["_lossless_coding/VariableToFixedCode.py", "_lossless_coding/TunstallCode.py", "_lossless_coding/util.py"],
  [("parser with completion of the incomplete last word", "_lossless_coding/VariableToFixedCode.py"), ("greedy leaf expansion", "_lossless_coding/TunstallCode.py")],
  ["encode", "decode", "sourcewords", "rate"])
p("L05", "Lempel-Ziv coders are lossless with well-formed tokens",
  "For LZ77, LZSS, LZ78 and LZW with any parameters, decoding inverts encoding for every source sequence, including empty, constant, incompressible and self-overlapping ones. For LZ77, LZSS and LZ78 the intermediate token streams round-trip separately, tokens stay within their windows (offset, length and symbol ranges, greedy longest match) and serialise to words of the documented sizes.",
  "all source/target cardinalities, window and lookahead sizes, initial buffers, source sequences",
  "tests use short textbook strings over small alphabets.",
  ["_lossless_coding/LempelZiv77Code.py", "_lossless_coding/LempelZivSSCode.py", "_lossless_coding/LempelZiv78Code.py", "_lossless_coding/LempelZivWelchCode.py", "_lossless_coding/util.py"],
  [("window search", "_lossless_coding"), ("dictionary growth", "_lossless_coding"), ("symbol/integer packing", "_lossless_coding/util.py")],
  ["encode", "decode", "source_to_tokens", "tokens_to_source", "tokens_to_target", "target_to_tokens"])
p("L06", "Universal integer codes are prefix codes that round-trip",
  "Unary and Fibonacci encodings of any sequence of admissible integers (up to 64 bits) decode back to it; each integer's codeword is its unary word, or its Zeckendorf representation closed by a second one bit, so codewords are prefix-free and concatenation is unambiguous. Inadmissible integers are refused.",
  "all sequences of admissible integers, of any magnitude",
  "tests list the first codewords.",
  ["_integer_coding/UnaryCode.py", "_integer_coding/FibonacciCode.py"],
  [("greedy Zeckendorf expansion", "_integer_coding/FibonacciCode.py")],
  ["encode", "decode"])

# ---------------------------------------------------------------- labelings
p("G01", "Labelings are bijections between indices and bit words, blockwise",
  "Every labeling's matrix has each m-bit word exactly once; converting indices to bits concatenates the corresponding rows, converting bits to indices inverts it, for any non-empty array shape, and the inverse mapping is that inverse. Indices or bits outside the domain, or a length that is not a multiple of m, are refused.",
  "all labelings (natural, reflected, rectangular, product, user matrix), all arrays of indices/bits",
  "tests check small sizes and 1-D arrays.",
  ["_labelings/base.py", "_labelings/NaturalLabeling.py", "_labelings/ReflectedLabeling.py", "_labelings/ProductLabeling.py", "_labelings/ReflectedRectangularLabeling.py", "_labelings/Labeling.py"],
  [("matrix lookup and closed-form conversions", "_labelings")],
  ["indices_to_bits", "bits_to_indices", "inverse_mapping", "matrix"])
p("G02", "Natural, reflected and product labelings have their defining order",
  "The natural labeling is the MSB-first binary expansion; the reflected labeling is a Gray code (consecutive and wrap-around words differ in one bit) equal to the standard reflected code; a product labeling is the Cartesian product of its factors in row-major order (with repeat as in itertools.product), and the rectangular one is the product of two reflected labelings, hence Gray on the grid.",
  "all bit counts, factor lists and repeats",
  "tests check a few sizes.",
  ["_labelings/NaturalLabeling.py", "_labelings/ReflectedLabeling.py", "_labelings/ProductLabeling.py", "_labelings/ReflectedRectangularLabeling.py"],
  [("i xor i>>1", "_labelings/ReflectedLabeling.py"), ("itertools product of rows", "_labelings/ProductLabeling.py")],
  ["matrix"], over=("configurations",))
p("G03", "Marginalising symbol metrics gives exact bit L-values",
  "For any labeling and any positive symbol metrics, each output L-value is the logarithm of the sum of the metrics of the symbols whose label has that bit 0 over the sum for bit 1, in label-bit order and blockwise over any non-empty array shape; one-hot metrics give infinite L-values of the right sign, so hard decisions reproduce the label.",
  "all labelings, metric arrays and shapes",
  "tests check one or two vectors.",
  ["_labelings/base.py"],
  [("masked sums", "_labelings/base.py")],
  ["marginalize"])

# ---------------------------------------------------------------- constellations
p("K01", "Symbol mapping and nearest-symbol detection agree with the constellation",
  "Mapping indices concatenates the constellation's rows, in any shape; the closest-index and closest-symbol rules return a symbol at minimum Euclidean distance from every received point (dimension-N blocks), for every family, order (at least two), scaling and phase offset. Hence detection inverts mapping in the absence of noise.",
  "all families and parameters, all received points (also far outside the constellation)",
  "tests use standard parameters and a few points; fast slicers replace the exhaustive rule per family.",
  ["_constellations/base.py", "_constellations/*.py"],
  [("family-specific slicers", "_constellations"), ("exhaustive distance rule", "_constellations/base.py")],
  ["indices_to_symbols", "closest_indices", "closest_symbols"])
p("K02", "Constellation matrices and closed-form statistics match their definition",
  "Each family's constellation matrix (order at least two) is the documented set of points in the documented order, with the stated order and dimension. Mean, mean energy and minimum distance, for uniform or arbitrary priors, equal the sums and minima computed directly over that matrix.",
  "all families, orders, amplitudes/deltas, phase offsets and priors",
  "tests compare constants for default parameters.",
  ["_constellations/*.py"],
  [("closed forms", "_constellations")],
  ["matrix", "order", "dimension", "mean", "mean_energy", "minimum_distance"], over=("inputs", "configurations"))
p("K03", "Symbol posteriors obey Bayes' rule for the Gaussian channel",
  "For every constellation, noise power, priors and received point (within the reach of double precision), posteriors are the normalised products of the prior and the Gaussian likelihood of the noise model (variance per real dimension equal to the noise power for real constellations, half of it for complex ones); they sum to one and stay finite for distant points and small noise. Their maximum at equal priors is the closest symbol.",
  "all constellations, noise powers over many decades, priors (zeros allowed), received arrays",
  "tests check a few points.",
  ["_constellations/base.py"],
  [("max-shifted log-domain softmax", "_constellations/base.py")],
  ["posteriors"])

# ---------------------------------------------------------------- channels
p("C01", "Channel transition matrices, mutual information and capacity are consistent",
  "For the binary symmetric, binary erasure, Z and general discrete memoryless channels, the transition matrix is the documented stochastic matrix, mutual information for any input pmf and log base equals the one computed from the joint distribution, and capacity is its maximum over input pmfs (closed forms included).",
  "all parameters in [0,1], all transition matrices, pmfs and bases",
  "tests check a few parameter values.",
  ["_channels/*.py", "_util/information_theory.py"],
  [("closed forms", "_channels"), ("Arimoto-Blahut", "_util/information_theory.py")],
  ["transition_matrix", "mutual_information", "capacity"], over=("inputs", "configurations"))
p("C02", "Channel simulation follows the transition law symbol by symbol",
  "Transmitting any array gives an array of the same shape whose entries are drawn independently with the transition probabilities of the corresponding input symbol: impossible outputs never occur, certain ones always do, and frequencies match. The Gaussian channel adds zero-mean noise of the given power, real for real input and circularly symmetric for complex input, and none at zero power.",
  "all channels and parameters, inputs of any shape/integer or boolean dtype; statistics over many samples",
  "tests check shapes and a few frequencies.",
  ["_channels/*.py"],
  [("uniform draw thresholding / choice", "_channels"), ("normal noise generation", "_channels/GaussianChannel.py")],
  ["transmit"])
p("I01", "Entropy functions satisfy their defining sums and identities",
  "Entropy, binary entropy, its inverse on [0, 1/2], and relative entropy equal their defining sums in any base, with zero-probability terms contributing nothing and divergence infinite exactly when support is not covered. Entropy lies between 0 and log of the alphabet size, relative entropy is non-negative, and invalid pmfs, probabilities or bases are refused.",
  "all pmfs (including degenerate and tiny probabilities), bases, probabilities",
  "tests check a few values.",
  ["_util/information_theory.py", "_util/validators.py"],
  [("masked sums", "_util/information_theory.py"), ("bisection", "_util/information_theory.py")],
  ["entropy", "binary_entropy", "binary_entropy_inv", "relative_entropy"])

# ---------------------------------------------------------------- pulses
p("P01", "Pulse waveform, spectrum, energy and correlation are Fourier consistent",
  "For every pulse and parameter, the spectrum is the Fourier transform of the waveform, the energy spectral density is the squared magnitude of the spectrum, the autocorrelation is the inverse transform of that density, and the energy is its integral and the autocorrelation at zero. Values are finite and continuous at removable singularities, scalars and arrays agree, and the waveform vanishes outside the stated support.",
  "all pulses, roll-off/width/bandwidth parameters (endpoints included), times and frequencies",
  "tests sample a few closed forms.",
  ["_pulses/*.py"],
  [("closed forms with singularity patches", "_pulses")],
  ["waveform", "spectrum", "energy", "autocorrelation", "energy_spectral_density", "support"], over=("inputs", "configurations"))
p("P02", "Nyquist pulses are ISI-free; roots cascade to the pulse; taps sample it",
  "Sinc, raised-cosine and Beaulieu pulses are one at zero and zero at every other integer for every roll-off, and their spectra sum to one over integer shifts. The root pulse has the square-root spectrum and its autocorrelation is the original pulse; FIR taps are the waveform sampled at the requested rate over the span, end points included, and a span is required for infinite support.",
  "all roll-offs, sampling rates and spans",
  "tests check a few roll-offs.",
  ["_pulses/*.py"],
  [("root pulse classes", "_pulses"), ("taps sampling grid", "_pulses/base.py")],
  ["waveform at integers", "root()", "taps"], over=("inputs", "configurations"))

# ---------------------------------------------------------------- quantization
p("Q01", "Scalar quantizers map every sample to the level of its interval",
  "For every quantizer and real input of any shape, the index is the number of thresholds not exceeding the input and the output is that level; quantization is monotone, idempotent on levels, and for uniform quantizers picks the nearest level with saturation, levels and thresholds lying on the documented grid (mid-riser and mid-tread included). Mis-ordered levels/thresholds are refused and the mean squared error equals the integral it is defined by.",
  "all level/threshold sets, steps, offsets and inputs (infinite included)",
  "tests check a few quantizers and inputs.",
  ["_quantization/base.py", "_quantization/ScalarQuantizer.py", "_quantization/UniformQuantizer.py"],
  [("np.digitize on thresholds", "_quantization/base.py")],
  ["digitize", "quantize", "levels", "thresholds", "mean_squared_error"])
p("Q02", "Lloyd-Max quantizers satisfy both optimality conditions",
  "For every pdf, range and number of levels, the Lloyd-Max design has increasing levels inside the range, each threshold the midpoint of its neighbouring levels and each level the centroid of its interval, up to the convergence tolerance. Its mean squared error is no larger than that of the uniform quantizer it starts from.",
  "all input pdfs with positive mass on every cell, ranges, level counts",
  "tests compare a few published tables.",
  ["_quantization/LloydMaxQuantizer.py"],
  [("Lloyd iteration", "_quantization/LloydMaxQuantizer.py")],
  ["levels", "thresholds", "mean_squared_error"], over=("inputs", "configurations"))

# ---------------------------------------------------------------- sequences
p("S01", "LFSR sequences obey their recurrence and m-sequences are maximal",
  "For every feedback polynomial with non-zero constant term and every start state, the sequence has length 2^n - 1, starts with the start state's bits from the high end and satisfies the linear recurrence of the polynomial. For primitive polynomials it has least period 2^n - 1, is balanced and has the two-valued cyclic autocorrelation (L at multiples of L, -1 elsewhere).",
  "all feedback polynomials and non-zero start states",
  "tests check one or two registers.",
  ["_sequences_binary/LFSRSequence.py", "_sequences_binary/sequences.py"],
  [("register simulation", "_sequences_binary/sequences.py")],
  ["bit_sequence", "polar_sequence", "cyclic_autocorrelation"], over=("inputs", "configurations"))
p("S02", "Walsh-Hadamard, Barker and Zadoff-Chu sequences have their properties",
  "Walsh-Hadamard sequences are rows of the Sylvester matrix in natural order, or in sequency order with exactly i sign changes in row i, and are mutually orthogonal; Barker sequences have aperiodic autocorrelation of magnitude at most one off zero shift; Zadoff-Chu sequences have unit modulus, zero cyclic autocorrelation for coprime roots and constant cross-correlation sqrt(L) for coprime root differences.",
  "all lengths, indices, orderings and roots",
  "tests check a few lengths.",
  ["_sequences_binary/WalshHadamardSequence.py", "_sequences_binary/BarkerSequence.py", "_sequences_complex/ZadoffChuSequence.py", "_sequences_binary/sequences.py", "_sequences_complex/sequences.py"],
  [("Kronecker/Gray/bit-reversal indexing", "_sequences_binary"), ("chirp formula", "_sequences_complex/sequences.py")],
  ["polar_sequence", "sequence", "autocorrelation"], over=("configurations",))
p("S03", "Autocorrelation functions equal their defining sums at every shift",
  "For every real or complex sequence, autocorrelation at any shift (negative, zero, beyond the length) is the sum of x[n] times the conjugate of x[n - shift], zero beyond the length; the cyclic one uses cyclic shifts and is periodic. Normalisation divides by the energy, bit and polar formats correspond by 0 -> +1 and 1 -> -1, and sequence objects report the same values for their polar form.",
  "all sequences, shift arrays and normalisation flags",
  "tests check a few sequences and default shifts.",
  ["_util/sequences.py", "_sequences_binary/BinarySequence.py", "_sequences_complex/ComplexSequence.py"],
  [("slice dot products", "_util/sequences.py")],
  ["autocorrelation", "cyclic_autocorrelation", "BinarySequence formats"])

# ---------------------------------------------------------------- sources
p("M01", "Markov chain state classification follows from the transition graph",
  "For every transition matrix, accessible states, communicating classes, irreducibility, transient, recurrent and absorbing states, periods, aperiodicity, regularity, index of primitivity and absorbing-ness (every state can reach an absorbing one) are those given by positivity of powers of the matrix. The answers agree with each other and do not depend on call order.",
  "all finite transition matrices (reducible, periodic, absorbing), all states",
  "tests use textbook chains.",
  ["_sources/MarkovChain.py"],
  [("graph search, level gcd", "_sources/MarkovChain.py")],
  ["classification methods"], over=("inputs", "histories"))
p("M02", "Markov stationary and absorption quantities solve their equations",
  "For every irreducible chain the stationary distribution is the pmf pi with pi P = pi. For every absorbing chain the mean visits, mean absorption times and absorption probabilities, indexed by the transient and absorbing states in increasing order, satisfy the first-step equations (so absorption probabilities sum to one per transient state); chains of the wrong kind are refused.",
  "all irreducible / absorbing chains of any size and state numbering",
  "tests use textbook chains with few states.",
  ["_sources/MarkovChain.py"],
  [("least squares solve", "_sources/MarkovChain.py"), ("fundamental matrix", "_sources/MarkovChain.py")],
  ["stationary_distribution", "mean_number_of_visits", "mean_time_to_absorption", "absorption_probabilities"])
p("M03", "Sources and chains simulate their probability law",
  "A discrete memoryless source emits symbols of its alphabet in the requested shape with the given pmf and its entropy rate is the entropy of the pmf; a Markov chain simulation has the requested length, starts at the initial state and only makes positive-probability transitions, with matching frequencies. Simulation until absorption ends at its first absorbing state.",
  "all pmfs/transition matrices, shapes, seeds and initial states",
  "tests check one or two seeds.",
  ["_sources/DiscreteMemorylessSource.py", "_sources/MarkovChain.py"],
  [("generator choice", "_sources")],
  ["emit", "simulate", "simulate_until_absorption"])

# ---------------------------------------------------------------- util
p("U01", "Bit/integer conversions are exact inverses for both bit orders",
  "Converting integers to a fixed number of bits and back is the identity for every non-negative integer that fits, of any size and array shape, in LSB-first and MSB-first order, and the two orders are mirror images. Bits to integers equals the positional sum, for any input dtype and array shape.",
  "all non-negative integers (beyond 64 bits included), widths, shapes, orders",
  "tests check small ints.",
  ["_util/bit_operations.py"],
  [("packbits", "_util/bit_operations.py"), ("shift loop", "_util/bit_operations.py")],
  ["bits_to_int", "int_to_bits"])
p("U02", "Rate conversion, convolution and Fourier wrappers follow their definitions",
  "Along any axis, compression keeps x[nM + offset], expansion places x[n] at nL + offset among zeros, and compressing an expansion with the same factor and offset returns the input; convolution applies the 1-D convolution to every slice along the axis, whichever argument is one-dimensional. The Fourier transform is the centred DFT scaled by the time step with matching frequency bins, and invalid factors or offsets are refused.",
  "all arrays, axes, factors, offsets, modes",
  "tests check a few arrays.",
  ["_util/signal_processing.py"],
  [("slicing", "_util/signal_processing.py"), ("numpy wrappers", "_util/signal_processing.py")],
  ["sampling_rate_compress", "sampling_rate_expand", "convolve", "fourier_transform"])
p("U03", "Special functions are accurate over their whole domain",
  "The Gaussian Q function and its inverse, the Marcum Q function and the box-plus operator equal their defining integrals or formulas to within rounding over their domain, tails and infinite L-values included. Q is decreasing with Q(x) + Q(-x) = 1, the inverse inverts it, Marcum Q is a probability, decreasing in x, increasing in a and m, and box-plus is commutative, associative and never larger in magnitude than either argument.",
  "all real arguments, orders and array shapes",
  "tests check a few points.",
  ["_util/special_functions.py"],
  [("erfc", "_util/special_functions.py"), ("series", "_util/special_functions.py"), ("stable boxplus", "_util/special_functions.py")],
  ["gaussian_q", "gaussian_q_inv", "marcum_q", "boxplus"])

# ---------------------------------------------------------------- cross-cutting
p("X01", "Operations are pure: inputs intact, repeat calls agree, no shared state",
  "No encode, decode, conversion or query method modifies the arrays it is given or the objects it is called on in an observable way: repeating a call with equal arguments gives an equal result whatever was called in between (random and streaming operations, whose carried state is documented, excepted). Distinct objects never share state, and building an object from an array does not modify that array.",
  "all public operations, all call sequences on one or several objects",
  "tests call each method once on a fresh object.",
  ["_error_control_block/base.py", "_error_control_decoders/*.py", "_labelings/base.py", "_constellations/base.py", "_lossless_coding/util.py", "_finite_state_machine/MealyMachine.py", "_sources/MarkovChain.py", "_util/decorators.py"],
  [("caches keyed by instance", "_error_control_block/base.py"), ("copy-on-write in algorithms", "_error_control_decoders")],
  ["arguments before/after each call, repeated results"], over=("inputs", "histories"))
p("X02", "Array operations act blockwise and independently of batch shape",
  "Encoding, checking, decoding, labeling, modulation and demodulation of an array of blocks equal the concatenation of the per-block results, for any leading dimensions and any number of blocks in the last axis, with the documented output shape; lists, tuples and arrays of any integer or boolean dtype give the same result. The result of any operation depends on the values of its array arguments alone, not on their memory layout (strides, order, byte order, writability). A last dimension that is not a multiple of the block size is refused.",
  "all block codes, decoders, labelings and constellations, all batch shapes and input representations",
  "tests use one batch shape per class.",
  ["_util/decorators.py", "_error_control_block/base.py", "_error_control_decoders/*.py", "_labelings/base.py", "_constellations/base.py"],
  [("blockwise and vectorize decorators", "_util/decorators.py")],
  ["output arrays for batched vs. single calls"], over=("inputs", "configurations"))
p("X03", "The printed representation of an object rebuilds an equivalent object",
  "For every code, labeling, constellation, channel, source, machine, quantizer, polynomial, field, sequence and pulse whose representation is a constructor expression, evaluating the representation yields an object with the same observable parameters and behaviour. Producing it never fails for an object that could be constructed.",
  "all classes and constructor parameters",
  "tests compare literal strings for a few objects.",
  ["*"],
  [("__repr__ methods", "*")],
  ["repr(obj), eval(repr(obj))"], over=("configurations",))
p("X04", "Random operations are reproducible and driven only by their generator",
  "With the same seed set in the library's global generator (before construction) or the same generator passed in, every random operation (channels, sources, chains) repeats bit for bit; different seeds give different streams. Random operations draw only from their own generator: they do not touch NumPy's legacy global state, and deterministic operations draw nothing.",
  "all random components, seeds, interleavings of operations",
  "tests seed once per test.",
  ["_util/global_rng.py", "_channels/*.py", "_sources/*.py"],
  [("shared generator handle", "_util/global_rng.py")],
  ["outputs and generator states"], over=("inputs", "histories"))

p("X05", "Results have the kind of value their operation declares",
  "Every operation returns the kind of value it declares: codewords, symbols, indices, bits and tokens are arrays of integers (empty inputs included), L-values, levels, probabilities and waveforms arrays of reals, complex signals and spectra complex; counts, degrees and cardinalities are integers, rates, energies, entropies and distances plain real numbers, predicates truth values, and algebraic results elements of their ring.",
  "all public operations, integer, boolean, list and empty inputs",
  "tests compare values, which hides integers returned as floats or objects; no test feeds the result of one part to every other.",
  ["_error_control_block/base.py", "_error_control_decoders/*.py", "_lossless_coding/*.py", "_integer_coding/*.py", "_labelings/base.py", "_quantization/base.py", "_sources/*.py"],
  [("dtype conversions in every operation", "*")],
  ["type and dtype of each result"])
p("X06", "Restricted parameters: boundary values work, values outside are refused",
  "Where a constructor or function restricts a parameter (range, sign, size, shape, rank, alphabet, name, distinctness, prefix condition), values that meet the restriction, boundary values included, are accepted and usable, and values outside it are refused with an exception rather than yielding a half-built object or a wrong result. Symbols outside the alphabet given to an encoder, decoder or labeling that checks its alphabet are refused.",
  "all restricted constructor parameters and checked operation arguments",
  "tests exercise a few refusals and almost no boundary values.",
  ["*"],
  [("validation in constructors", "*"), ("validators", "_util/validators.py")],
  ["exceptions at the API boundary"], over=("inputs", "configurations"))
p("X07", "Whole communication chains deliver the message end to end",
  "Source code, channel code, labeling, constellation, Gaussian channel, posteriors, bit L-values and decoder agree on their conventions: without noise the message comes back exactly at every signal-to-noise ratio, however sharp (bits known with certainty, infinite L-values). The bit L-values are log P(0)/P(1) of the received points; soft decisions over antipodal signals are the closest sequence; hard decisions survive noise below half the minimum distance plus up to t bit errors per block; Nyquist pulse shaping returns the symbols.",
  "all combinations of source codes, channel codes, labelings, constellations, pulses and noise levels",
  "unit tests exercise each block alone; the contracts between blocks (signs, orders, units, extremes) range over all combinations.",
  ["_labelings/base.py", "_constellations/base.py", "_error_control_decoders/*.py", "_error_control_block/base.py", "_channels/GaussianChannel.py", "_util/signal_processing.py", "_pulses/*.py"],
  [("L-value sign and scale convention", "_labelings/base.py"), ("soft metrics", "_error_control_decoders")],
  ["message in, message out; intermediate L-values"], over=("inputs", "configurations"))
p("X08", "Copies and pickles behave as the original and are independent of it",
  "A shallow copy, deep copy or pickle round trip of any object, taken before or after use, gives the same results as the original for every operation. Copies that carry streaming or random state evolve on their own: a deep copy of a random or streaming component continues from the same state without disturbing the original.",
  "all classes, before and after any sequence of operations",
  "no test copies an object.",
  ["*"],
  [("cached properties, dataclasses, carried state", "*")],
  ["results of copies versus the original"], over=("configurations", "histories"))
p("X09", "An object shared by threads gives every thread the sequential results",
  "Deterministic operations of one object (codes, decoders, labelings, constellations, machines, channels' capacities, sources' statistics, quantizers, sequences) called from several threads at once, in any order and interleaving, including the first use that fills internal caches, return exactly what the same calls return on a fresh object used by one thread.",
  "all objects with deterministic operations and all thread interleavings",
  "tests are single-threaded.",
  ["_error_control_block/base.py", "_error_control_decoders/*.py", "_labelings/base.py", "_constellations/base.py", "_finite_state_machine/MealyMachine.py", "_sources/MarkovChain.py"],
  [("cached properties and per-call state", "*")],
  ["results per thread versus sequential results"], over=("inputs", "schedules"))


def main():
    with open(ROOT / "properties.jsonl", "w") as f:
        for q in P:
            f.write(json.dumps(q, ensure_ascii=False) + "\n")
    import importlib.util
    m = ROOT / "tools" / "manifest.py"
    if m.exists():
        spec = importlib.util.spec_from_file_location("manifest", m)
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        mod.write(ROOT, P)


if __name__ == "__main__":
    main()
