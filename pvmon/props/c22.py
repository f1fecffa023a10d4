"""Random records (1 to 1500 samples, odd and even, all kinds of content, lists and
integer arrays) with automatic and requested transform lengths. Frequencies, amplitudes,
energy, the inverse transform and filtered series are compared with explicit discrete
Fourier sums, delays with shifted records, and gains with scaled ones. Non-trivial: each
distinct record."""
import numpy as np

from .. import gen
from ..core import Monitor

SIZES = [1, 2, 3, 5, 7, 8, 16, 31, 63, 64, 65, 100, 127, 128, 129, 255, 300]


def record(rng, i, big=True):
    n = SIZES[i % len(SIZES)] if i % 3 else int(rng.integers(1, 1500 if big else 300))
    dt = float(rng.choice([0.005, 0.01, 0.02, 0.1, rng.uniform(0.001, 0.05)]))
    if n < 4:
        a = rng.standard_normal(n)
    else:
        a = gen.wave(rng, n, dt)
        if rng.random() < 0.2:
            a = rng.standard_normal(n)
    return n, dt, a


def auto_length(n):
    p = 1
    while p < n:
        p *= 2
    return p


def dft(a, n):
    """Explicit one-sided discrete Fourier sums of the zero-padded record."""
    k = np.arange(n // 2 + 1)
    t = np.arange(min(len(a), n))
    ph = np.outer(k, t) % n
    return np.exp(-2j * np.pi * ph / n) @ np.asarray(a, float)[: t.size]


def inverse(c, n):
    """Explicit real inverse of one-sided coefficients."""
    k = np.arange(n // 2 + 1)
    w = np.where((k == 0) | ((n % 2 == 0) & (k == n // 2)), 1.0, 2.0)
    ph = np.outer(np.arange(n), k) % n
    return (np.exp(2j * np.pi * ph / n) @ (w * c)).real / n


def pair(ctx, rng, i):
    m = gen.ps().motion
    n, dt, a = record(rng, i)
    fa = None
    if rng.random() < 0.55:
        fa = int(n + rng.choice([0, 1, 2, 3, rng.integers(0, n + 5)]))
    given = a
    if rng.random() < 0.1:
        a = np.round(a / (np.abs(a).max() + 1e-300) * 9)
        given = a.astype(int)
    if rng.random() < 0.3:
        given = list(given)
    ctx.case(n=n, dt=dt, fa_length=fa, accels=a)
    mot = m.TimeSeriesMotion("f.AT2", "about it", dt, given) if fa is None and rng.random() < 0.5 else m.TimeSeriesMotion("f.AT2", "about it", dt, given, fa)
    N = fa or auto_length(n)
    A = np.abs(a).max() + 1e-300
    tol = dict(rtol=0, atol=1e-11 * A * np.sqrt(N) + 1e-13 * A * N)
    ctx.same(mot.accels, a, "samples")
    ctx.equal((mot.filename, mot.description, mot.time_step), ("f.AT2", "about it", dt), "record header")
    ctx.close(mot.times, dt * np.arange(n), "times", 1e-12)
    f, F = mot.freqs, mot.fourier_amps
    ctx.equal(f.shape, F.shape, "frequencies match amplitudes")
    ctx.equal(f.shape, (N // 2 + 1,), "number of frequencies")
    ctx.close(f, np.arange(N // 2 + 1) / (N * dt), "frequencies", 1e-12)
    ctx.close(mot.angular_freqs, 2 * np.pi * np.arange(N // 2 + 1) / (N * dt), "angular frequencies", 1e-12)
    ctx.true(f[0] == 0 and f[-1] <= 0.5 / dt * (1 + 1e-12), "range of the frequencies")
    small = N <= 700
    want = dft(a, N) if small else np.fft.fft(np.r_[a, np.zeros(N - n)])[: N // 2 + 1]
    ctx.close(F / dt, want, "amplitudes", **tol)
    w = np.where((np.arange(N // 2 + 1) == 0) | ((N % 2 == 0) & (np.arange(N // 2 + 1) == N // 2)), 1.0, 2.0)
    ctx.close(np.sum(w * np.abs(F) ** 2) / (N * dt), dt * np.sum(np.asarray(a, float) ** 2), "energy", 1e-9, 1e-300)
    ts = mot.calc_time_series()
    ctx.equal(ts.shape, (N,), "length of the inverse")
    ctx.close(ts[:n], a, "inverse returns the samples", **tol)
    ctx.close(ts[n:], np.zeros(N - n), "inverse ends with zeros", **tol)

    # Filters
    g = float(rng.uniform(-3, 3))
    nf = f.size
    ctx.close(mot.calc_time_series(np.full(nf, g)), g * ts, "constant gain", **tol)
    ctx.close(mot.calc_time_series(g), g * ts, "scalar gain", **tol)
    ctx.close(mot.calc_time_series(np.ones(nf)), ts, "unit transfer function", **tol)
    d = int(rng.integers(0, N))
    k = np.arange(nf)
    ctx.close(mot.calc_time_series(np.exp(-2j * np.pi * (k * d % N) / N)), np.roll(ts, d), "delay", **tol)
    tf = rng.standard_normal(nf) + 1j * rng.standard_normal(nf)
    got = mot.calc_time_series(tf)
    for gain in (float(10 ** rng.uniform(-7, -2)), float(10 ** rng.uniform(2, 7))):
        ctx.close(mot.calc_time_series(gain * tf), gain * got, "gain of a filter", rtol=0, atol=1e-10 * A * N * gain)
    if small:
        ctx.close(got, inverse(tf * dft(a, N), N), "arbitrary transfer function", rtol=0, atol=1e-9 * A * N)
        # Derivative of the trigonometric interpolant
        dtf = 2j * np.pi * k / (N * dt)
        ctx.close(mot.calc_time_series(dtf), inverse(dtf * dft(a, N), N), "derivative", rtol=0, atol=1e-9 * A * N / dt)
    tf2 = rng.standard_normal(nf) + 1j * rng.standard_normal(nf)
    ctx.close(mot.calc_time_series(tf + 2 * tf2), got + 2 * mot.calc_time_series(tf2), "filters superpose", rtol=0, atol=1e-10 * A * N)
    ctx.close(np.abs(got).max(), mot.calc_peak(tf), "peak of the filtered series", 1e-12)
    # Reading does not change the motion
    ctx.same(mot.fourier_amps, F, "amplitudes read again")
    ctx.same(mot.calc_time_series(), ts, "series read again")
    ctx.same(mot.accels, a, "samples after filtering")
    ctx.see("odd transform lengths", N % 2)
    ctx.see("requested transform lengths", fa is not None)
    ctx.see("explicit sums", small)
    ctx.nontrivial(n, dt, fa, a)


def long_record(ctx, rng, i):
    m = gen.ps().motion
    n = int(rng.integers(40_000, 160_000))
    dt = 0.005
    a = rng.standard_normal(n) * np.exp(-(((np.arange(n) - n * rng.uniform(0, 1)) / (0.3 * n)) ** 2))
    ctx.case(n=n, i=i)
    mot = m.TimeSeriesMotion("", "", dt, a)
    N = auto_length(n)
    ctx.equal(mot.freqs.shape, (N // 2 + 1,), "number of frequencies")
    ctx.close(mot.freqs, np.arange(N // 2 + 1) / (N * dt), "frequencies", 1e-12)
    ctx.close(mot.fourier_amps / dt, np.fft.rfft(np.r_[a, np.zeros(N - n)]), "amplitudes", 0, 1e-9 * np.abs(a).max() * np.sqrt(N))
    ts = mot.calc_time_series()
    ctx.equal(ts.shape, (N,), "length of the inverse")
    ctx.close(ts[:n], a, "inverse returns the samples", 0, 1e-9 * np.abs(a).max())
    ctx.see("long records")
    ctx.nontrivial(n, i)


def derivative(ctx, rng, i):
    """Sinusoids on a bin: delay, derivative and integral are analytic."""
    m = gen.ps().motion
    N = int(rng.integers(16, 400))
    dt = float(rng.choice([0.01, 0.02]))
    ks = rng.choice(np.arange(1, (N - 1) // 2), 3)
    am, ph = rng.uniform(-1, 1, 3), rng.uniform(0, 6.28, 3)
    t = dt * np.arange(N)

    def series(order):
        return sum(a * (2 * np.pi * k / (N * dt)) ** order * np.cos(2 * np.pi * k * t / (N * dt) + p + order * np.pi / 2) for k, a, p in zip(ks, am, ph))

    ctx.case(N=N, dt=dt, bins=ks)
    mot = m.TimeSeriesMotion("", "", dt, series(0), N)
    iw = 1j * mot.angular_freqs
    for order in (1, 2):
        w = series(order)
        ctx.close(mot.calc_time_series(iw**order), w, f"derivative {order} of sinusoids", 0, 1e-8 * np.abs(w).max() + 1e-300)
    with np.errstate(all="ignore"):
        inv = np.where(mot.freqs > 0, 1 / iw, 0)
    w = series(-1)
    ctx.close(mot.calc_time_series(inv), w, "integral of sinusoids", 0, 1e-9 * np.abs(w).max() + 1e-300)
    ctx.see("sinusoids", 3)
    ctx.nontrivial(N, ks)


MONITORS = [
    Monitor("pair", pair, 600, 18000, {"odd transform lengths": 60, "requested transform lengths": 200, "explicit sums": 200}),
    Monitor("long", long_record, 6, 60, {"long records": 4}),
    Monitor("derivative", derivative, 120, 4000, {"sinusoids": 300}),
]
