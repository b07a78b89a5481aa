"""P01-P02: pulses."""
import math

import numpy as np

import komm

from .core import rule, section

rule("P01", "All pulses (roots included) with random and boundary parameters, times and frequencies up to some hundreds, on and off removable "
     "singularities; oracles: the defining waveform or spectrum written from the docs and Gauss-Legendre integration of the transform pairs.")
rule("P02", "Nyquist pulses with random and boundary roll-offs at integers up to thousands, spectral folding sums, root pulses against quadrature of "
     "the square-root spectrum; taps against the waveform on the exact sampling grid.")

X40, W40 = np.polynomial.legendre.leggauss(40)


def integ(g, lo, hi, panels):
    """Composite Gauss-Legendre integral of g over [lo, hi]."""
    if hi <= lo:
        return 0.0
    e = np.linspace(lo, hi, int(panels) + 1)
    h, c = (e[1:] - e[:-1]) / 2, (e[1:] + e[:-1]) / 2
    return np.sum(g((c[:, None] + h[:, None] * X40).ravel()).reshape(len(h), -1) * W40 * h[:, None])


def rolloff(r):
    t = int(r.integers(0, 8))
    if t == 0:
        return 0.0
    if t == 1:
        return 1.0
    if t == 2:
        return float([0.25, 0.5, 0.75, 0.22, 0.35, 0.125][int(r.integers(0, 6))])
    if t == 3:
        return float(10.0 ** -r.uniform(0, 5))
    if t == 4:
        return 1 - float(10.0 ** -r.uniform(1, 8))
    return float(r.uniform(0, 1))


def band_pulse(r, root=True):
    """(pulse, roll-off, breakpoints of the spectrum, defining spectrum, cusp?)"""
    t = int(r.integers(0, 7))
    a = rolloff(r)
    if t == 0:
        return komm.SincPulse(), 0.0, [0.0, 0.5], lambda f: ((-0.5 <= f) & (f < 0.5)) * 1.0, False, "sinc"
    f1, f2 = (1 - a) / 2, (1 + a) / 2
    if a == 0:
        spec = lambda f: ((-0.5 <= f) & (f < 0.5)) * 1.0
    elif t <= 3:
        spec = lambda f: np.where(np.abs(f) < f1, 1.0, np.where(np.abs(f) < f2, 0.5 * (1 + np.cos(np.pi * (np.abs(f) - f1) / a)), 0.0))
    else:
        b = 2 * np.log(2) / a

        def spec(f):
            f = np.abs(f)
            with np.errstate(over="ignore", invalid="ignore"):
                return np.where(f < f1, 1.0, np.where(f < 0.5, np.exp(-b * np.maximum(f - f1, 0)),
                                                      np.where(f < f2, -np.expm1(-b * np.maximum(f2 - f, 0)), 0.0)))
    p = komm.RaisedCosinePulse(a) if t <= 3 else komm.BeaulieuPulse(a)
    name = "raised cosine" if t <= 3 else "Beaulieu"
    br = [0.0, 0.5] if a == 0 else ([0.0, f1, f2] if t <= 3 else [0.0, f1, 0.5, f2])
    if root and t in (2, 3, 5, 6):
        base = spec
        return p.root(), a, br, lambda f: np.sqrt(base(f)), t >= 5 and a > 0, "root " + name
    return p, a, br, spec, False, name


def times(r, a, n):
    """Times, with the removable singularities of the closed forms among them."""
    t = r.uniform(-1, 1, size=n) * [2.0, 10.0, 60.0, 400.0][int(r.integers(0, 4))]
    for k in range(n):
        u = int(r.integers(0, 9))
        s = float(r.choice([1, -1]))
        if u == 0:
            t[k] = 0.0
        elif u == 1 and a > 1e-3:
            t[k] = s / (4 * a)
        elif u == 2 and a > 1e-3:
            t[k] = s / (2 * a)
        elif u == 3 and a > 2e-3:
            t[k] = s / a
        elif u == 4:
            t[k] = round(t[k])
        elif u == 5 and a > 2e-3:  # close to a singularity
            t[k] = s * [0.25, 0.5, 1.0][int(r.integers(0, 3))] / a * (1 + float(r.normal()) * 10.0 ** -r.uniform(2, 14))
        elif u == 6:
            t[k] = float(r.normal()) * 10.0 ** -r.uniform(1, 12)
    return t


def give(r, x):
    """The same numbers as an array, a list, a matrix or with an empty axis kept out."""
    k = int(r.integers(0, 4))
    if k == 0:
        return x.tolist(), x.shape
    if k == 1 and x.size % 2 == 0:
        return x.reshape(2, -1), (2, x.size // 2)
    if k == 2:
        return x.reshape(-1, 1), (x.size, 1)
    return x, x.shape


def call(m, r, fn, x, what):
    """Call on an array in some representation; the scalars must agree."""
    arg, sh = give(r, x)
    y = fn(arg)
    m.shape(y, sh, what + " shape")
    y = np.asarray(y).ravel()
    k = int(r.integers(0, x.size))
    s = fn(float(x[k]))
    m.shape(s, (), what + " of a scalar")
    # matrix products differ in the last bits between shapes
    m.close(complex(s), complex(y[k]), what + " of a scalar", rtol=1e-12, atol=1e-14)
    m.ok(bool(np.all(np.isfinite(y))), lambda: f"{what} not finite at {x[~np.isfinite(y)].tolist()}")
    return y


def band_int(fn, br, t, cusp):
    """2 * integral over f >= 0 of fn(f) cos(2 pi f t), between the breakpoints."""
    s = 0.0
    for j, (lo, hi) in enumerate(zip(br[:-1], br[1:])):
        n = 2 + int(2 * (hi - lo) * abs(t))
        if cusp and j == len(br) - 2:  # square-root cusp at the upper edge
            s += integ(lambda v: 2 * v * fn(hi - v * v) * np.cos(2 * np.pi * (hi - v * v) * t), 0.0, math.sqrt(hi - lo), 2 * n)
        else:
            s += integ(lambda f: fn(f) * np.cos(2 * np.pi * f * t), lo, hi, n)
    return 2 * s


@section("P01", 400, 8000)
def band_limited(m, r, i):
    p, a, br, spec, cusp, name = band_pulse(r)
    m.note(pulse=name, rolloff=a)
    m.tag(name)
    f = np.concatenate([r.uniform(-1.2, 1.2, size=5), [0.0, 0.3]])
    f = f[np.min(np.abs(np.abs(f)[:, None] - np.array(br)), axis=1) > 1e-9] if a or name == "sinc" else f
    S = call(m, r, p.spectrum, f, "spectrum")
    m.close(S, spec(f).astype(complex), "spectrum", rtol=1e-12, atol=1e-9 if a < 1e-3 else 1e-12)
    D = call(m, r, p.energy_spectral_density, f, "energy spectral density")
    m.close(D, np.abs(S) ** 2, "energy spectral density = |spectrum|^2", rtol=1e-12, atol=1e-15)
    m.eq(tuple(p.support), (-np.inf, np.inf), "support")
    t = times(r, a, 6)
    w = call(m, r, p.waveform, t, "waveform")
    ac = call(m, r, p.autocorrelation, t, "autocorrelation")
    m.ok(not np.iscomplexobj(w) and not np.iscomplexobj(ac), "complex waveform")
    real = lambda g: (lambda x: np.real(g(x)))
    tol = 1e-11
    for k in range(len(t)):
        m.close(w[k], band_int(real(p.spectrum), br, t[k], cusp), f"waveform at {t[k]!r} is the inverse transform of the spectrum", rtol=tol, atol=tol)
        m.close(ac[k], band_int(p.energy_spectral_density, br, t[k], False), f"autocorrelation at {t[k]!r} is the inverse transform of the density",
                rtol=tol, atol=tol)
    m.close(p.energy(), band_int(p.energy_spectral_density, br, 0.0, False), "energy", rtol=tol, atol=tol)
    m.close(float(p.autocorrelation(0.0)), p.energy(), "autocorrelation at zero = energy", rtol=tol, atol=tol)
    m.close(p.waveform(-t), w, "even waveform", rtol=1e-12, atol=1e-14)
    m.close(p.autocorrelation(-t), ac, "even autocorrelation", rtol=1e-12, atol=1e-14)


def time_pulse(r):
    """(pulse, support end, waveform, breakpoints, name)"""
    if r.integers(0, 2):
        w = 1.0 if r.integers(0, 4) == 0 else float([0.5, 0.25, 0.1, r.uniform(0.001, 1)][int(r.integers(0, 4))])
        return komm.RectangularPulse(w), w, lambda t: ((t >= 0) & (t < w)) * 1.0, [0.0, w], "rectangular"
    return komm.ManchesterPulse(), 1.0, lambda t: ((t >= 0.5) & (t < 1)) * 1.0 - ((t >= 0) & (t < 0.5)), [0.0, 0.5, 1.0], "Manchester"


@section("P01", 400, 8000)
def time_limited(m, r, i):
    p, w, wav, br, name = time_pulse(r)
    m.note(pulse=name, width=w)
    m.tag(name)
    t = r.uniform(-1, 2, size=6) * [1.0, 1.0, 20.0][int(r.integers(0, 3))]
    t = np.where(r.integers(0, 5, size=6) == 0, r.choice([0.0, w, 0.5, 1.0, -1.0, 0.25], size=6), t)
    t = t[np.abs(t - w) != 0] if name == "rectangular" and r.integers(0, 2) else t
    if t.size:
        y = call(m, r, p.waveform, t, "waveform")
        m.arr(y, wav(t), "waveform")
    m.eq(tuple(map(float, p.support)), (0.0, w), "support")
    f = r.uniform(-1, 1, size=5) * [2.0, 10.0, 200.0][int(r.integers(0, 3))]
    f = np.where(r.integers(0, 4, size=5) == 0, np.round(f), f)
    S = call(m, r, p.spectrum, f, "spectrum")
    D = call(m, r, p.energy_spectral_density, f, "energy spectral density")
    tau = r.uniform(-1.3, 1.3, size=5) * [1.0, w, 10.0][int(r.integers(0, 3))]
    tau = np.where(r.integers(0, 4, size=5) == 0, r.choice([0.0, w, -w, 0.5, -0.5, 1.0, -1.0], size=5), tau)
    R = call(m, r, p.autocorrelation, tau, "autocorrelation")
    for k in range(5):
        n = 2 + int(2 * abs(f[k]) * w)
        v = sum(integ(lambda x: p.waveform(x) * np.exp(-2j * np.pi * f[k] * x), lo, hi, n) for lo, hi in zip(br[:-1], br[1:]))
        m.close(S[k], v, f"spectrum at {f[k]!r} is the transform of the waveform", rtol=1e-10, atol=1e-11)
        pts = sorted({min(max(x, 0.0), w) for x in br + [b + tau[k] for b in br]})
        v = sum(integ(lambda x: p.waveform(x) * p.waveform(x - tau[k]), lo, hi, 1) for lo, hi in zip(pts[:-1], pts[1:]) if hi - lo > 1e-12)
        m.close(R[k], v, f"autocorrelation at {tau[k]!r}", rtol=1e-11, atol=1e-11)
    m.close(D, np.abs(S) ** 2, "energy spectral density = |spectrum|^2", rtol=1e-11, atol=1e-15)
    m.close(p.energy(), sum(integ(lambda x: p.waveform(x) ** 2, lo, hi, 1) for lo, hi in zip(br[:-1], br[1:])), "energy", rtol=1e-12)
    m.close(float(p.autocorrelation(0.0)), p.energy(), "autocorrelation at zero = energy", rtol=1e-12)


@section("P01", 150, 3000)
def gaussian(m, r, i):
    B = float(10.0 ** r.uniform(-2, 2)) if r.integers(0, 3) else float(r.choice([0.3, 0.5, 1.0]))
    p = komm.GaussianPulse(B)
    m.note(B=B)
    b = B / math.sqrt(math.log(2))
    f = r.normal(size=5) * b * 2
    S = call(m, r, p.spectrum, f, "spectrum")
    m.close(S, (np.exp(-0.5 * (f / b) ** 2) / (math.sqrt(2 * math.pi) * b)).astype(complex), "spectrum", rtol=1e-12)
    D = call(m, r, p.energy_spectral_density, f, "energy spectral density")
    m.close(D, np.abs(S) ** 2, "energy spectral density = |spectrum|^2", rtol=1e-11, atol=1e-300)
    m.close(float(p.energy_spectral_density(B)) / float(p.energy_spectral_density(0.0)), 0.5, "half power at the half-power bandwidth", rtol=1e-12)
    t = r.normal(size=5) / b * 0.4
    t[0] *= int(r.integers(0, 2))
    w, R = call(m, r, p.waveform, t, "waveform"), call(m, r, p.autocorrelation, t, "autocorrelation")
    for k in range(5):
        n = 12
        g = lambda h: 2 * integ(lambda x: np.real(h(x)) * np.cos(2 * np.pi * x * t[k]), 0.0, 9 * b, n)
        m.close(w[k], g(p.spectrum), f"waveform at {t[k]!r} is the inverse transform of the spectrum", rtol=1e-9, atol=1e-13)
        m.close(R[k], g(p.energy_spectral_density), f"autocorrelation at {t[k]!r}", rtol=1e-9, atol=1e-13 / b)
    m.close(p.energy(), 2 * integ(p.energy_spectral_density, 0.0, 9 * b, 12), "energy", rtol=1e-11)
    m.close(float(p.autocorrelation(0.0)), p.energy(), "autocorrelation at zero = energy", rtol=1e-12)
    m.eq(tuple(p.support), (-np.inf, np.inf), "support")


@section("P01", 40, 200)
def refusals(m, r, i):
    bad = [-0.1, 1.1, math.nan, -1e-9, 1 + 1e-9, math.inf][i % 6]
    m.note(parameter=bad)
    m.refuses(lambda: komm.RaisedCosinePulse(bad), f"RaisedCosinePulse({bad})")
    m.refuses(lambda: komm.BeaulieuPulse(bad), f"BeaulieuPulse({bad})")
    m.refuses(lambda: komm.GaussianPulse([0.0, -1.0, math.nan][i % 3]), "GaussianPulse out of range")
    for p in (komm.RectangularPulse(0.5), komm.ManchesterPulse(), komm.GaussianPulse()):
        m.refuses(lambda: p.root(), f"{type(p).__name__}.root()")


@section("P02", 400, 8000)
def nyquist(m, r, i):
    p, a, br, spec, cusp, name = band_pulse(r, root=False)
    m.note(pulse=name, rolloff=a)
    m.tag(name)
    k = np.unique(r.integers(-5000, 5000, size=6) if r.integers(0, 2) else r.integers(-12, 13, size=6))
    k = np.append(k, 0)
    v = np.asarray(p.waveform(k if r.integers(0, 2) else k.astype(float)))
    m.close(v, (k == 0) * 1.0, "waveform at the integers", rtol=1e-12, atol=2e-13)
    if a > 0 and r.integers(0, 2):  # integers that meet a singularity of the closed form
        a2 = 1 / (2 * int(r.integers(1, 40)))
        q = type(p)(a2)
        z = np.array([round(1 / a2), round(1 / (2 * a2)), 2 * round(1 / a2)])
        m.close(q.waveform(z), np.zeros(3), "waveform at the integers", atol=1e-13, rtol=0)
    f = r.uniform(-0.5, 0.5, size=6)
    f = f[np.abs(np.abs(f) - (1 - a) / 2) > 1e-9]
    if f.size:
        tot = sum(np.asarray(p.spectrum(f + n)) for n in range(-2, 3))
        m.close(tot, np.ones(f.size, dtype=complex), "spectrum folded over integer shifts", rtol=1e-12, atol=1e-9 if a < 1e-3 else 1e-12)


@section("P02", 300, 6000)
def roots(m, r, i):
    p, a, br, spec, _, name = band_pulse(r, root=False)
    q = p.root()
    m.note(pulse=name, rolloff=a)
    m.tag(name)
    f = r.uniform(-1.1, 1.1, size=6)
    m.close(np.asarray(q.spectrum(f)) ** 2, p.spectrum(f), "root spectrum squared", rtol=1e-12, atol=1e-14)
    m.close(q.energy_spectral_density(f), np.real(p.spectrum(f)), "root density = spectrum", rtol=1e-12, atol=1e-14)
    t = times(r, a, 6)
    m.close(q.autocorrelation(t), p.waveform(t), "root autocorrelation = waveform", rtol=1e-12, atol=1e-14)
    w = np.asarray(q.waveform(t))
    sq = lambda x: np.sqrt(spec(x))
    for k in range(6):
        m.close(w[k], band_int(sq, br, t[k], name == "Beaulieu" and a > 0), f"root waveform at {t[k]!r}", rtol=1e-11, atol=1e-11)
    m.close(q.energy(), 1.0, "root energy", rtol=1e-12)
    # cascade of the sampled roots, exact for band-limited pulses up to the truncated tails
    if a >= 0.3 and r.integers(0, 3) == 0:
        sps = int(r.integers(3, 7))
        T = 120
        h = np.asarray(q.taps(sps, (-T, T)))
        c = np.array([np.dot(h[n * sps:], h[: len(h) - n * sps]) / sps for n in range(4)])
        m.close(c, np.array([1.0, 0, 0, 0]), "cascade of the sampled root pulses", rtol=0, atol=1e-4)


@section("P02", 400, 8000)
def taps(m, r, i):
    t = int(r.integers(0, 3))
    if t == 0:
        p, a, *_, name = band_pulse(r)
    elif t == 1:
        p, a, *_, name = time_pulse(r)
    else:
        a = float(r.uniform(0.1, 2))
        p, name = komm.GaussianPulse(a), "Gaussian"
    sps = int(r.integers(1, 17))
    m.note(pulse=name, parameter=a, sps=sps)
    m.tag(name)
    if t == 1:
        h = np.asarray(p.taps(sps))
        m.arr(h, np.asarray(p.waveform([k / sps for k in range(sps + 1)])), "taps over the default span")
    else:
        m.refuses(lambda: p.taps(sps), "taps without a span")
    lo = int(r.integers(-20, 5))
    hi = lo + int(r.integers(0 if t else 1, 25))
    span = (lo, hi)
    m.note(span=span)
    h = np.asarray(p.taps(sps, span) if r.integers(0, 2) else p.taps(samples_per_symbol=sps, span=span))
    m.shape(h, ((hi - lo) * sps + 1,), "taps")
    grid = np.array([lo + k / sps for k in range((hi - lo) * sps + 1)])
    exact = np.array([(lo * sps + k) / sps for k in range((hi - lo) * sps + 1)])
    m.close(h, np.asarray(p.waveform(exact)), "taps", rtol=1e-11, atol=1e-13)
    if t != 1:
        m.close(h, np.asarray(p.waveform(grid)), "taps", rtol=1e-9, atol=1e-10)
    if lo <= 0 <= hi and t != 1 and "root" not in name:
        m.close(h[-lo * sps], 1.0, "tap at zero", rtol=1e-12)
