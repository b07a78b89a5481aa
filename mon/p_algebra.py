"""A01-A04: GF(2)[X], its fractions, irreducibility, finite fields."""
import functools
import importlib
import inspect
import itertools
import math

import numpy as np

import komm
from komm import BinaryPolynomial as BP, BinaryPolynomialFraction as BF, FiniteBifield

from . import ref
from .core import rule, section

rule("A01", "Random binary polynomials with degrees from 0 to 200 (sparse, dense, equal, coprime and with a planted "
     "common factor, zero and one included) driven through every operator; each result compared with an "
     "independent bit-level GF(2)[X] model.")
rule("A02", "Every polynomial up to a degree bound, plus random products and sieved irreducibles of higher degree, "
     "judged by an independent sieve / trial division / order computation; all 24 default polynomials.")
rule("A03", "Random fractions (common factors, zeros, ones, negative exponents) compared by cross multiplication "
     "with the independent polynomial model; normal form judged by gcd.")
rule("A04", "Every field of degree 1..5 with every irreducible modulus, random ones above; random elements and "
     "exponents compared with discrete tables built by the reference model.")


def internal(module, name, nargs):
    """An internal function of the algebra package, or None where this tree does not have it in that form."""
    try:
        f = getattr(importlib.import_module(f"komm._algebra.{module}"), name)
        return f if len(inspect.signature(f).parameters) == nargs else None
    except (ImportError, AttributeError, TypeError, ValueError):
        return None


def rpoly(r, maxdeg=None, nonzero=False):
    while True:
        kind = r.integers(0, 8)
        d = int(r.integers(0, (maxdeg if maxdeg is not None else int(r.choice([3, 8, 20, 70, 200]))) + 1))
        if kind == 0:
            v = int(r.integers(0, 4))
        elif kind == 1:
            v = 1 << d
        elif kind == 2:
            v = (1 << (d + 1)) - 1
        elif kind == 3:
            v = (1 << d) | 1
        else:
            v = int.from_bytes(r.bytes(d // 8 + 1), "little") & ((1 << (d + 1)) - 1)
        if maxdeg is not None:
            v &= (1 << (maxdeg + 1)) - 1
        if v or not nonzero:
            return v


def pair(r):
    a, b = rpoly(r), rpoly(r)
    k = r.integers(0, 5)
    if k == 0:
        b = a
    elif k == 1:
        c = rpoly(r, 20, True)
        a, b = ref.pmul(a, c), ref.pmul(b, c)
    elif k == 2:
        b = ref.pmul(a, rpoly(r, 6))
    return a, b


@section("A01", 2500, 60000)
def ring_ops(m, r, i):
    a, b = pair(r)
    m.note(a=bin(a), b=bin(b))
    A, B = BP(a), BP(b)
    m.eq(int(A + B), a ^ b, "sum")
    m.eq(int(A - B), a ^ b, "difference")
    m.eq(int(-A), a, "negation")
    m.eq(int(A * B), ref.pmul(a, b), "product")
    m.eq((A == B, A == BP(a), A == a), (a == b, True, True), "equality")
    m.ok(hash(A) == hash(BP(a)), "equal polynomials hash equally")
    n = int(r.integers(0, 70))
    m.eq((int(A << n), int(A >> n)), (a << n, a >> n), "shifts")
    e = int(r.integers(0, 9))
    small = BP(a & 0xFFFF)
    m.eq(int(small ** e), ref.ppow(a & 0xFFFF, e), f"power {e}")
    m.eq((int(0 * A), int(1 * A), int(2 * A), int(3 * A)), (0, a, 0, a), "integer multiples")
    m.eq(A.degree, ref.deg(a), "degree")
    m.ok(A.ambient.zero == BP(0) and A.ambient.one == BP(1), "identities")


@section("A01", 2500, 60000)
def division(m, r, i):
    a, b = pair(r)
    m.note(a=bin(a), b=bin(b))
    A, B = BP(a), BP(b)
    if b == 0:
        m.refuses(lambda: divmod(A, B), "divmod by zero polynomial")
        m.refuses(lambda: A // B, "floordiv by zero polynomial")
        m.refuses(lambda: A % B, "mod by zero polynomial")
        return
    q, rem = divmod(A, B)
    m.eq((int(q), int(rem)), ref.pdivmod(a, b), "divmod")
    m.eq((int(A // B), int(A % B)), ref.pdivmod(a, b), "floordiv/mod")


@section("A01", 2000, 40000)
def gcds(m, r, i):
    a, b = pair(r)
    m.note(a=bin(a), b=bin(b))
    A, B = BP(a), BP(b)
    g = ref.pgcd(a, b)
    m.eq(int(BP.gcd(A, B)), g, "gcd")
    d, s, t = BP.xgcd(A, B)
    m.eq(int(d), g, "xgcd gcd")
    m.eq(ref.pmul(a, int(s)) ^ ref.pmul(b, int(t)), g, "Bezout identity")
    if a and b:
        m.eq(int(BP.lcm(A, B)), ref.plcm(a, b), "lcm of two")


@section("A01", 2, 8)
def large(m, r, i):
    """Degrees in the thousands: the algorithms must neither lose bits nor exhaust the interpreter's recursion limit."""
    d = int(r.integers(900, 6000))
    a, b = (int.from_bytes(r.bytes(d // 8 + 1), "little") | 1 << d for _ in range(2))
    c = rpoly(r, 40, True)
    a, b = ref.pmul(a, c), ref.pmul(b, c)
    m.note(degree=d, a=a, b=b)
    A, B = BP(a), BP(b)
    m.eq(int(A * B), ref.pmul(a, b), "product")
    q, rem = divmod(A * A, B)
    m.eq((int(q), int(rem)), ref.pdivmod(ref.pmul(a, a), b), "divmod")
    g, s, t = BP.xgcd(A, B)
    m.eq(int(g), ref.pgcd(a, b), "xgcd gcd")
    m.eq(ref.pmul(a, int(s)) ^ ref.pmul(b, int(t)), int(g), "Bezout identity")
    m.eq(int(BP.gcd(A, B)), int(g), "gcd")
    m.eq(int(BP.from_coefficients(A.coefficients())), a, "coefficients round trip")
    m.eq(int(BP.from_exponents(A.exponents())), a, "exponents round trip")


@section("A01", 1500, 30000)
def gcd_lcm_many(m, r, i):
    n = int(r.integers(1, 6))
    c = rpoly(r, 6, True) if r.integers(0, 2) else 1
    ps = [ref.pmul(rpoly(r, int(r.choice([1, 3, 12])), True), c) for _ in range(n)]
    if r.integers(0, 3) == 0 and n > 1:
        ps[-1] = ps[0]
    m.note(polys=[bin(p) for p in ps])
    g, l = 0, 1
    for p in ps:
        g, l = ref.pgcd(p, g), ref.plcm(l, p)
    m.eq(int(BP.gcd(*map(BP, ps))), g, f"gcd of {n}")
    got = int(BP.lcm(*map(BP, ps)))
    # recorded finding: the quotient (product of all)/(gcd of all) is returned, which is not the lcm for n != 2
    prod = 1
    for p in ps:
        prod = ref.pmul(prod, p)
    same = n != 2 and got == ref.pdivmod(prod, g)[0]
    m.eq(got, l, f"lcm of {n}", mech="lcm-product-over-gcd" if same else None)


@section("A01", 1500, 20000)
def conversions(m, r, i):
    a = rpoly(r)
    m.note(a=bin(a))
    A = BP(a)
    need = max(ref.deg(a) + 1, 1)
    m.eq(A.coefficients(), [(a >> k) & 1 for k in range(need)], "coefficients()")
    w = need + int(r.integers(0, 80))
    m.eq(A.coefficients(w), [(a >> k) & 1 for k in range(w)], f"coefficients(width={w})")
    m.eq(A.exponents(), [k for k in range(need) if (a >> k) & 1], "exponents()")
    m.eq(int(BP.from_coefficients(A.coefficients(w))), a, "from_coefficients o coefficients")
    m.eq(int(BP.from_coefficients([bool(x) for x in A.coefficients()])), a, "from_coefficients of bools")
    if a:
        ex = np.array(A.exponents())
        m.eq(int(BP.from_exponents(ex)), a, "from_exponents o exponents")
        m.eq(int(BP.from_exponents(r.permutation(ex).tolist())), a, "from_exponents in any order")
    m.eq(int(A.reciprocal()), ref.v2i([(a >> k) & 1 for k in range(need)][::-1]), "reciprocal")
    m.eq(int(A.reciprocal(w)), ref.v2i([(a >> k) & 1 for k in range(w)][::-1]), f"reciprocal({w})")
    m.eq(str(A), bin(a), "str")


@section("A01", 800, 10000)
def evaluation(m, r, i):
    a = rpoly(r, int(r.choice([1, 5, 20])))
    b = rpoly(r, 6)
    m.note(a=bin(a), b=bin(b))
    A = BP(a)
    comp, acc = 0, 1
    for k in range(a.bit_length()):
        if (a >> k) & 1:
            comp ^= acc
        acc = ref.pmul(acc, b)
    m.eq(int(A.evaluate(BP(b))), comp, "evaluation at a polynomial")
    d = int(r.integers(1, 9))
    f = FiniteBifield(d)
    mod = int(f.modulus)
    x = int(r.integers(0, 1 << d))
    m.note(field=d, x=x)
    acc, s = 1, 0
    for k in range(a.bit_length()):
        if (a >> k) & 1:
            s ^= acc
        acc = ref.pmulmod(acc, x, mod)
    got = A.evaluate(f(x))
    m.eq(int(got.value), s, "evaluation at a field element")
    z = int(r.integers(-3, 4))
    gi = A.evaluate(komm.Integer(z))
    m.eq(gi.value, sum(z ** k for k in range(a.bit_length()) if (a >> k) & 1), "evaluation at an integer")
    fr = BF(BP(rpoly(r, 4)), BP(rpoly(r, 4, True)))
    want = BF(0)
    for k in range(a.bit_length()):
        if (a >> k) & 1:
            want = want + fr ** k
    if a.bit_length() < 7:
        m.ok(A.evaluate(fr) == want, "evaluation at a fraction")


# ---------------------------------------------------------------- A02
@section("A02", 64, 512, exhaustive=True)
def exhaustive_small(m, r, i):
    n = 64 if m.tier == "quick" else 512
    top = 1 << (11 if m.tier == "quick" else 15)
    irr = set(ref.irreducibles(14))
    m.note(block=i)
    for a in range(i, top, n):
        m.eq(BP(a).is_irreducible(), a in irr, f"is_irreducible({a:#b})")
        if a in irr or a % 7 == 0:
            m.eq(BP(a).is_primitive(), ref.pprimitive(a), f"is_primitive({a:#b})")


@section("A02", 150, 3000)
def large(m, r, i):
    k = i % 4
    if k == 0:  # product of irreducibles: reducible
        irr = ref.irreducibles(9)
        a = 1
        for _ in range(int(r.integers(2, 5))):
            a = ref.pmul(a, int(r.choice(irr)))
        want = False
    elif k == 1:  # square of a polynomial (derivative zero)
        a = ref.ppow(int(r.choice(ref.irreducibles(9))), 2)
        want = False
    elif k == 2:  # product of equal-degree irreducibles: passes the X^(2^n) = X half of Rabin's test
        d = int(r.integers(2, 9))
        pool = [f for f in ref.irreducibles(9) if ref.deg(f) == d]
        a = ref.pmul(int(r.choice(pool)), int(r.choice(pool)))
        want = False
    else:
        d = int(r.integers(12, 21))
        a = (1 << d) | int(r.integers(0, 1 << (d - 1))) << 1 | 1
        want = ref.pirreducible(a)
    m.note(a=bin(a), kind=int(k))
    m.eq(BP(a).is_irreducible(), want, "is_irreducible")
    m.eq(BP(a).is_primitive(), want and ref.pprimitive(a), "is_primitive")


@section("A02", 40, 400)
def irreducible_large(m, r, i):
    """Random irreducible polynomials of degree 12..20, found by rejection, and their primitivity."""
    d = int(r.integers(10, 19))
    while True:
        a = (1 << d) | int(r.integers(0, 1 << (d - 1))) << 1 | 1
        if bin(a).count("1") % 2 and ref.pirreducible(a):
            break
    m.note(a=bin(a))
    m.eq(BP(a).is_irreducible(), True, "is_irreducible")
    m.eq(BP(a).is_primitive(), ref.pprimitive(a), "is_primitive")


@section("A02", 24, 24, exhaustive=True)
def defaults(m, r, i):
    d = i + 1
    m.note(degree=d)
    mod = int(FiniteBifield(d).modulus)
    m.eq(ref.deg(mod), d, "degree of default modulus")
    x = mod
    # independent irreducibility: gcd(X^(2^k) + X, p) = 1 for all k <= d/2
    h = 2
    for k in range(1, d // 2 + 1):
        h = ref.pmulmod(h, h, mod)
        m.ok(ref.pgcd(x, h ^ 2) == 1, f"default modulus {mod:#b} has no factor of degree {k}")
    order = (1 << d) - 1
    if d > 1:
        m.ok(ref.ppowmod(2, order, mod) == 1 and all(ref.ppowmod(2, order // q, mod) != 1 for q in ref.factor_int(order)),
             f"X has full order modulo {mod:#b}")
    m.ok(BP(mod).is_irreducible() and BP(mod).is_primitive(), "library agrees")
    if d <= (13 if m.tier == "quick" else 18):
        seq = komm.LFSRSequence.maximum_length_sequence(d)
        fb = int(seq.feedback_polynomial)
        m.eq(ref.deg(fb), d, "degree of default m-sequence polynomial")
        m.ok(d == 1 or all(ref.ppowmod(2, order // q, fb) != 1 for q in ref.factor_int(order))
             and ref.ppowmod(2, order, fb) == 1, "default m-sequence polynomial has full order")
    if d == 24:
        m.refuses(lambda: FiniteBifield(0), "degree 0")


@section("A02", 60, 600)
def modulus_validation(m, r, i):
    d = int(r.integers(1, 11))
    a = (1 << d) | int(r.integers(0, 1 << d))
    m.note(a=bin(a), d=d)
    if ref.pirreducible(a):
        m.eq(int(FiniteBifield(d, a).modulus), a, "irreducible modulus accepted")
    else:
        m.refuses(lambda: FiniteBifield(d, a), "reducible modulus")
    m.refuses(lambda: FiniteBifield(d + 1, a), "modulus of wrong degree")


# ---------------------------------------------------------------- A03
def rfrac(r):
    n, d = rpoly(r, int(r.choice([2, 6, 12]))), rpoly(r, int(r.choice([2, 6, 12])), True)
    if r.integers(0, 2):
        c = rpoly(r, 5, True)
        n, d = ref.pmul(n, c), ref.pmul(d, c)
    return n, d


def chk(m, f, n, d, what):
    """f must be n/d in lowest terms."""
    g = ref.pgcd(n, d)
    m.eq((int(f.numerator), int(f.denominator)),
         (ref.pdivmod(n, g)[0], ref.pdivmod(d, g)[0]), what)


@section("A03", 1500, 30000)
def field_ops(m, r, i):
    (an, ad), (bn, bd) = rfrac(r), rfrac(r)
    if r.integers(0, 6) == 0:
        bn, bd = an, ad
    m.note(a=(bin(an), bin(ad)), b=(bin(bn), bin(bd)))
    A, B = BF(an, ad), BF(bn, bd)
    chk(m, A, an, ad, "construction")
    mul = ref.pmul
    chk(m, A + B, mul(an, bd) ^ mul(bn, ad), mul(ad, bd), "sum")
    chk(m, A - B, mul(an, bd) ^ mul(bn, ad), mul(ad, bd), "difference")
    chk(m, -A, an, ad, "negation")
    chk(m, A * B, mul(an, bn), mul(ad, bd), "product")
    m.eq(A == B, mul(an, bd) == mul(bn, ad), "equality")
    chk(m, 2 * A, 0, 1, "even multiple")
    chk(m, 3 * A, an, ad, "odd multiple")
    if bn:
        chk(m, A / B, mul(an, bd), mul(ad, bn), "quotient")
        chk(m, B.inverse(), bd, bn, "inverse")
    else:
        m.refuses(lambda: A / B, "division by zero fraction")
        m.refuses(lambda: B.inverse(), "inverse of zero")
        m.refuses(lambda: B ** -1, "negative power of zero")
    m.refuses(lambda: BF(an, 0), "zero denominator")
    chk(m, BF(BP(an), BP(ad)), an, ad, "construction from polynomials")
    m.ok(A.ambient.zero == BF(0) and A.ambient.one == BF(1, 1), "identities")


@section("A03", 800, 10000)
def powers(m, r, i):
    n, d = rpoly(r, 5), rpoly(r, 5, True)
    e = int(r.integers(-7, 8))
    m.note(a=(bin(n), bin(d)), e=e)
    A = BF(n, d)
    if n == 0 and e < 0:
        m.refuses(lambda: A ** e, "negative power of zero")
        return
    f = A ** e
    if e >= 0:
        chk(m, f, ref.ppow(n, e), ref.ppow(d, e), f"power {e}")
    else:
        chk(m, f, ref.ppow(d, -e), ref.ppow(n, -e), f"power {e}")


@section("A03", 500, 8000)
def axioms(m, r, i):
    fs = [BF(*rfrac(r)) for _ in range(3)]
    m.note(fs=fs)
    a, b, c = fs
    m.ok((a + b) + c == a + (b + c), "associativity of +")
    m.ok((a * b) * c == a * (b * c), "associativity of *")
    m.ok(a * (b + c) == a * b + a * c, "distributivity")
    m.ok(a + b == b + a and a * b == b * a, "commutativity")
    m.ok(a - a == BF(0) and a + BF(0) == a and a * BF(1) == a, "identities")
    if int(a.numerator):
        m.ok(a * a.inverse() == BF(1) and a / a == BF(1), "inverse")


# ---------------------------------------------------------------- A04
def rfield(r, maxdeg=10):
    d = int(r.integers(1, maxdeg + 1))
    pool = [f for f in ref.irreducibles(10) if ref.deg(f) == d]
    mod = int(r.choice(pool))
    return d, mod


@section("A04", 1200, 20000)
def element_ops(m, r, i):
    d, mod = rfield(r)
    f = FiniteBifield(d, mod)
    x, y = (int(r.integers(0, 1 << d)) for _ in range(2))
    m.note(d=d, mod=bin(mod), x=x, y=y)
    X, Y = f(x), f(y)
    V = lambda e: int(e.value)
    m.eq(V(X + Y), x ^ y, "sum")
    m.eq(V(X - Y), x ^ y, "difference")
    m.eq(V(-X), x, "negation")
    m.eq(V(X * Y), ref.pmulmod(x, y, mod), "product")
    m.eq((X == Y, X == f(x), X != f(x)), (x == y, True, False), "equality")
    m.ok(hash(X) == hash(f(x)), "hash")
    if y:
        inv = ref.ppowmod(y, (1 << d) - 2, mod) if d > 1 else 1
        m.eq(V(Y.inverse()), inv, "inverse")
        m.eq(V(X / Y), ref.pmulmod(x, inv, mod), "quotient")
    else:
        m.refuses(lambda: Y.inverse(), "inverse of zero")
        m.refuses(lambda: X / Y, "division by zero")
        m.refuses(lambda: Y ** -2, "negative power of zero")
    e = int(r.integers(-(1 << d) - 3, (1 << d) + 4))
    if e >= 0 or x:
        base = x if e >= 0 else (ref.ppowmod(x, (1 << d) - 2, mod) if d > 1 else 1)
        m.eq(V(X ** e), ref.ppowmod(base, abs(e), mod), f"power {e}")
    m.eq((V(2 * X), V(3 * X)), (0, x), "integer multiples")
    m.eq((f.order, f.characteristic, V(f.zero), V(f.one)), (1 << d, 2, 0, 1), "field constants")


@section("A04", 300, 3000)
def mixing(m, r, i):
    d1, m1 = rfield(r, 6)
    d2, m2 = rfield(r, 6)
    m.note(f1=(d1, m1), f2=(d2, m2))
    f, g = FiniteBifield(d1, m1), FiniteBifield(d2, m2)
    m.eq(f == g, (d1, m1) == (d2, m2), "field equality")
    x, y = f(1), g(1)
    if (d1, m1) != (d2, m2):
        m.refuses(lambda: x + y, "sum across fields")
        m.refuses(lambda: x - y, "difference across fields")
        m.refuses(lambda: x * y, "product across fields")
        m.refuses(lambda: x / y, "quotient across fields")
        m.ok(x != y, "elements of different fields differ")
    else:
        m.ok(x == y and x + y == f.zero, "equal fields interoperate")


@section("A04", lambda: len([f for f in ref.irreducibles(6)]), lambda: len(ref.irreducibles(8)), exhaustive=True)
def derived(m, r, i):
    """For every irreducible modulus up to a degree: logarithms, conjugates, minimal polynomials of elements."""
    mod = ref.irreducibles(8)[i]
    d = ref.deg(mod)
    f = FiniteBifield(d, mod)
    m.note(mod=bin(mod))
    els = range(1 << d) if d <= 4 else sorted({0, 1, 2, *(int(t) for t in r.integers(0, 1 << d, size=10))})
    for x in els:
        X = f(x)
        orb, y = [], x
        while y not in orb:
            orb.append(y)
            y = ref.pmulmod(y, y, mod)
        m.eq(sorted(int(c.value) for c in X.conjugates()), sorted(orb), f"conjugates of {x}")
        mp = int(X.minimal_polynomial())
        m.ok(ref.pirreducible(mp) and ref.deg(mp) == len(orb), f"minimal polynomial {mp:#b} of {x}: irreducible of orbit degree")
        acc, s = 1, 0
        for k in range(mp.bit_length()):
            if (mp >> k) & 1:
                s ^= acc
            acc = ref.pmulmod(acc, x, mod)
        m.eq(s, 0, f"minimal polynomial {mp:#b} vanishes at {x}")
    for _ in range(4):
        b, x = int(r.integers(1, 1 << d)), int(r.integers(0, 1 << d))
        pw, acc = {}, 1
        for k in range((1 << d)):
            pw.setdefault(acc, k)
            acc = ref.pmulmod(acc, b, mod)
        if x in pw:
            lg = f(x).logarithm(f(b))
            m.eq(ref.ppowmod(b, lg, mod), x, f"{b}**log equals {x}")
            m.ok(0 <= lg < (1 << d), "log in range")
        else:
            m.refuses(lambda: f(x).logarithm(f(b)), f"log of {x} to base {b}")


@section("A04", 150, 1500)
def roots(m, r, i):
    """The root search used by the algebraic decoders, on arbitrary non-zero polynomials over the field."""
    find_roots = internal("FiniteBifield", "find_roots", 2)
    m.ok(True, "reached")
    if find_roots is None:  # an internal helper: may be renamed
        return m.trivial()
    d, mod = rfield(r, 6)
    f = FiniteBifield(d, mod)
    n = int(r.integers(1, 7))
    if r.integers(0, 2):  # a product of linear factors, repeated ones and X included
        co = [1]
        for _ in range(n):
            z = int(r.integers(0, 1 << d)) if r.integers(0, 3) else 0
            co = [ref.pmulmod(z, a, mod) ^ b for a, b in zip(co + [0], [0] + co)]
    else:
        co = [int(x) for x in r.integers(0, 1 << d, size=n + 1)]
        if not any(co):
            return m.trivial()
    m.note(d=d, mod=bin(mod), coefficients=co)

    def at(x):
        s = 0
        for a in reversed(co):
            s = ref.pmulmod(s, x, mod) ^ a
        return s

    got = [int(e.value) for e in find_roots(f, [f(a) for a in co])]
    m.eq(sorted(got), [x for x in range(1 << d) if at(x) == 0], "roots")


@section("A04", 30, 120)
def exhaustive_tables(m, r, i):
    irr = [f for f in ref.irreducibles(5)]
    mod = irr[i % len(irr)]
    d = ref.deg(mod)
    m.note(mod=bin(mod))
    f = FiniteBifield(d, mod)
    els = [f(x) for x in range(1 << d)]
    for x in range(1 << d):
        row = [int((els[x] * e).value) for e in els]
        m.eq(row, [ref.pmulmod(x, y, mod) for y in range(1 << d)], f"row {x} of the multiplication table")
        if x:
            m.eq(sorted(row), list(range(1 << d)), "multiplication by a unit is a permutation")
            m.eq(int((els[x] * els[x].inverse()).value), 1, "x * 1/x")


# ---------------------------------------------------------------- A05: generic algorithms over any ring / domain
rule("A05", "Random integers (negative, zero, beyond 64 bits), polynomials, fractions and field elements through the integer ring and the generic "
     "power, Horner, determinant, gcd, extended gcd and lcm; oracle: Python integers, permutation expansion of determinants, explicit power sums.")


def rint(r):
    k = int(r.integers(0, 5))
    return [0, int(r.integers(-3, 4)), int(r.integers(-200, 200)), int(r.integers(-2**40, 2**40)),
            int.from_bytes(r.bytes(12), "little") * int(r.choice([-1, 1]))][k]


class World:
    """One ring with its independent model: `make(x)` builds an element, `val(e)` is its model value, add/mul/neg act on model values."""


def world(r):
    w = World()
    k = int(r.integers(0, 4))
    w.domain = w.field = False
    if k == 0:
        w.name, w.make, w.val, w.rand, w.domain = "integers", komm.Integer, lambda e: e.value, lambda: rint(r), True
        w.add, w.mul, w.neg, w.one, w.zero = lambda a, b: a + b, lambda a, b: a * b, lambda a: -a, 1, 0
    elif k == 1:
        w.name, w.make, w.val, w.rand, w.domain = "polynomials", BP, int, lambda: rpoly(r, 12), True
        w.add, w.mul, w.neg, w.one, w.zero = lambda a, b: a ^ b, ref.pmul, lambda a: a, 1, 0
    elif k == 2:
        d, mod = rfield(r, 6)
        f = FiniteBifield(d, mod)
        w.name, w.make, w.val, w.rand, w.field = f"field {mod:#b}", f, lambda e: int(e.value), lambda: int(r.integers(0, 1 << d)), True
        w.add, w.mul, w.neg, w.one, w.zero = lambda a, b: a ^ b, lambda a, b: ref.pmulmod(a, b, mod), lambda a: a, 1, 0
    else:
        def low(p):
            g = ref.pgcd(p[0], p[1])
            return ref.pdivmod(p[0], g)[0], ref.pdivmod(p[1], g)[0]
        w.name, w.field = "fractions", True
        w.make, w.val = lambda p: BF(*p), lambda e: (int(e.numerator), int(e.denominator))
        w.rand = lambda: low((rpoly(r, 6), rpoly(r, 6, True)))
        w.add = lambda a, b: low((ref.pmul(a[0], b[1]) ^ ref.pmul(a[1], b[0]), ref.pmul(a[1], b[1])))
        w.mul, w.neg, w.one, w.zero = lambda a, b: low((ref.pmul(a[0], b[0]), ref.pmul(a[1], b[1]))), lambda a: a, (1, 1), (0, 1)
    return w


@section("A05", 900, 15000)
def integers(m, r, i):
    a, b = rint(r), rint(r)
    if r.integers(0, 6) == 0:
        b = a
    m.note(a=a, b=b)
    A, B = komm.Integer(a), komm.Integer(b)
    n = int(r.integers(-5, 6))
    m.eq([(A + B).value, (A - B).value, (-A).value, (A * B).value, (n * A).value], [a + b, a - b, -a, a * b, n * a], "ring operations")
    m.eq((A == B, A == komm.Integer(a), A != B), (a == b, True, a != b), "equality")
    m.eq((A.ambient.zero.value, A.ambient.one.value, A.ambient == B.ambient), (0, 1, True), "ambient ring")
    m.eq(A.ambient(a).value, a, "ambient constructor")
    if b:
        q, s = divmod(A, B)
        m.eq((q.value, s.value, (A // B).value, (A % B).value), divmod(a, b) * 2, "division with remainder")
    else:
        for fn, what in ((lambda: divmod(A, B), "divmod"), (lambda: A // B, "floordiv"), (lambda: A % B, "mod")):
            m.refuses(fn, f"{what} by zero")


@section("A05", 700, 12000)
def generic_ring(m, r, i):
    w = world(r)
    x = w.rand()
    n = int(r.integers(0, 12))
    m.note(ring=w.name, x=x, n=n)
    X = w.make(x)
    pw = [w.one]
    for _ in range(12):
        pw.append(w.mul(pw[-1], x))
    m.ok(True, "reached")
    power = internal("ring", "power", 2)
    if power:
        m.eq(w.val(power(X, n)), pw[n], f"power {n}")
        m.refuses(lambda: power(X, -1 - n), "negative power in a ring")
    fpower = internal("field", "power", 2)
    if fpower and w.field and x != w.zero:
        inv = fpower(X, -n)
        m.eq(w.mul(w.val(inv), pw[n]), w.one, f"power {-n} times power {n}")
    co = r.integers(0, 2, size=int(r.integers(0, 10)))
    bh = internal("ring", "binary_horner", 2)
    if bh:
        acc = w.zero
        for j, c in enumerate(co):
            acc = w.add(acc, pw[j]) if c else acc
        m.eq(w.val(bh(co, X)), acc, f"binary polynomial {co.tolist()} at x")
    h = internal("ring", "horner", 2)
    if h:
        co = r.integers(-3, 4, size=len(co))
        acc = w.zero
        for j, c in enumerate(co):
            for _ in range(abs(int(c))):
                acc = w.add(acc, w.neg(pw[j]) if c < 0 else pw[j])
        m.eq(w.val(h(co, X)), acc, f"integer polynomial {co.tolist()} at x")
    m.eq(w.val(BP.from_coefficients(co % 2).evaluate(X)), functools.reduce(
        lambda s, j: w.add(s, pw[j]) if co[j] % 2 else s, range(len(co)), w.zero), "evaluation of a binary polynomial")
    m.tag(w.name.split()[0])


def leibniz(w, M):
    n, tot = len(M), w.zero
    for perm in itertools.permutations(range(n)):
        t = w.one
        for a, b in enumerate(perm):
            t = w.mul(t, M[a][b])
        odd = sum(perm[a] > perm[b] for a in range(n) for b in range(a + 1, n)) % 2
        tot = w.add(tot, w.neg(t) if odd else t)
    return tot


@section("A05", 250, 4000)
def determinants(m, r, i):
    det = internal("ring", "determinant", 1)
    m.ok(True, "reached")
    if det is None:
        return m.trivial()
    w = world(r)
    n = int(r.integers(1, 5))
    M = [[w.zero if r.integers(0, 5) == 0 else w.rand() for _ in range(n)] for _ in range(n)]
    if n > 1 and r.integers(0, 5) == 0:
        M[-1] = list(M[0])
    m.note(ring=w.name, matrix=M)
    m.eq(w.val(det([[w.make(x) for x in row] for row in M])), leibniz(w, M), f"determinant of order {n}")
    if n > 1:
        bad = [[w.make(x) for x in row] for row in M]
        m.refuses(lambda: det(bad[:-1]), "determinant of a non-square matrix")
        m.refuses(lambda: det([bad[0][:-1]] + bad[1:]), "determinant of a ragged matrix")
    m.tag(w.name.split()[0])


@section("A05", 500, 8000)
def generic_domain(m, r, i):
    gcd, xgcd, lcm = (internal("domain", f, 2) for f in ("gcd", "xgcd", "lcm"))
    m.ok(True, "reached")
    if None in (gcd, xgcd, lcm):
        return m.trivial()
    if r.integers(0, 2):
        a, b, c = rint(r), rint(r), rint(r)
        a, b = (a * c, b * c) if r.integers(0, 2) else (a, b)
        make, val, want, prod = komm.Integer, lambda e: e.value, math.gcd(a, b), a * b
        comb, norm = lambda s, t: s * a + t * b, abs
    else:
        a, b, c = rpoly(r, 40), rpoly(r, 40), rpoly(r, 10)
        a, b = (ref.pmul(a, c), ref.pmul(b, c)) if r.integers(0, 2) else (a, b)
        make, val, want, prod = BP, int, ref.pgcd(a, b), ref.pmul(a, b)
        comb, norm = lambda s, t: ref.pmul(s, a) ^ ref.pmul(t, b), lambda x: x
    m.note(a=a, b=b)
    A, B = make(a), make(b)
    m.eq(norm(val(gcd(A, B))), want, "gcd up to sign")
    g, s, t = (val(e) for e in xgcd(A, B))
    m.eq((norm(g), comb(s, t)), (want, g), "extended gcd and its Bezout identity")
    l = val(lcm(A, B))
    if prod == 0:
        m.eq(l, 0, "lcm with zero")
    else:
        m.eq(norm(l), abs(a * b) // want if make is komm.Integer else ref.plcm(a, b), "lcm up to sign")
