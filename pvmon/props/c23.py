"""Random records (noise, pulses, offsets, spikes, compact displacement pulses) measured
in random query order, repeatedly, through the cached attributes and the functions, with
and without transfer functions, scaled, flipped and padded. Values are recomputed from
samples in the time domain. Non-trivial: each distinct record."""
import numpy as np

from .. import gen
from ..core import Monitor
from .c22 import auto_length, record

G = 9.80665


def arias(a, dt):
    s = np.asarray(a, float) ** 2
    return np.pi * G / 2 * dt * (s.sum() - (s[0] + s[-1]) / 2)


def cav(a, dt):
    s = np.abs(np.asarray(a, float))
    return G * dt * (s.sum() - (s[0] + s[-1]) / 2)


def velocity(a, dt):
    """Zero-mean integral of the trigonometric interpolant of the series [cm/s]."""
    N = len(a)
    c = np.fft.fft(a)
    k = np.fft.fftfreq(N, 1 / N)
    w = 2 * np.pi * k / (N * dt)
    with np.errstate(all="ignore"):
        v = np.where(k == 0, 0, c / (1j * w))
    if N % 2 == 0:
        v[N // 2] = 0
    return 100 * G * np.fft.ifft(v).real


def pgv(a, dt):
    return np.abs(velocity(a, dt)).max()


MEASURES = {
    "pga": lambda a, dt: np.abs(a).max(),
    "pgv": pgv,
    "arias_intensity": arias,
    "cav": cav,
}
CALC = {"pga": "calc_pga", "pgv": "calc_pgv", "arias_intensity": "calc_arias_intensity", "cav": "calc_cav"}


def judge(ctx, mot, padded, dt, rng, label):
    A = np.abs(padded).max()
    order = list(MEASURES) * 2 + ["peak", "series"]
    rng.shuffle(order)
    for name in order:
        if name == "peak":
            ctx.close(mot.calc_peak(), A, f"{label}: peak", 1e-9, 1e-13 * A)
        elif name == "series":
            mot.calc_time_series(rng.standard_normal(mot.freqs.size))
            mot.calc_osc_accels([1.0])
        else:
            want = MEASURES[name](padded, dt)
            got = getattr(mot, name) if rng.random() < 0.5 else getattr(mot, CALC[name])()
            ctx.close(got, want, f"{label}: {name}", 1e-8, 1e-12 * A)
            ctx.see(f"measured {name}")


def measures(ctx, rng, i):
    m = gen.ps().motion
    n, dt, a = record(rng, i)
    n = max(n, 2)
    a = np.resize(a, n)
    if rng.random() < 0.15:
        a = a + 0.2
    if rng.random() < 0.15 and n > 8:
        # Long records whose motion is slow
        dt = float(10 ** rng.uniform(-1, 0.7))
        a = gen.wave(rng, n, dt) * 0.01 + 0.1 * np.sin(2 * np.pi * rng.uniform(0.8, 4) * np.arange(n) / n + rng.uniform(0, 6))
    fa = int(n + rng.integers(0, n)) if rng.random() < 0.3 else None
    N = fa or auto_length(n)
    padded = np.r_[a, np.zeros(N - n)]
    A = np.abs(a).max()
    ctx.case(n=n, dt=dt, fa_length=fa, accels=a)

    def build(x, length=fa):
        return m.TimeSeriesMotion("", "", dt, x, length)

    mot = build(a)
    judge(ctx, mot, padded, dt, rng, "record")
    # Scale and polarity
    s = float(np.exp(rng.uniform(-3, 3)) if rng.random() < 0.6 else 10 ** rng.uniform(-7, 5)) * float(rng.choice([-1, 1]))
    scaled = build(s * a)
    for name in MEASURES:
        p = 2 if name == "arias_intensity" else 1
        ctx.close(getattr(scaled, name), abs(s) ** p * getattr(mot, name), f"scaling of {name}", 1e-8)
        ctx.close(getattr(build(-a), name), getattr(mot, name), f"polarity of {name}", 1e-9)
    # Transfer functions act as filters of the record
    nf = mot.freqs.size
    fc = float(rng.uniform(0.5, 10))
    tf = 1 / (1 + 1j * mot.freqs / fc) * float(rng.uniform(0.5, 3))
    if rng.random() < 0.4:
        tf = rng.standard_normal(nf) + 1j * rng.standard_normal(nf)
    gain = 1.0 if rng.random() < 0.6 else float(10 ** rng.uniform(-6, 6))
    tf = tf * gain
    filtered = np.fft.irfft(tf * np.fft.rfft(padded), N)
    ft = build(filtered, N)
    for name in MEASURES:
        got = getattr(mot, CALC[name])(tf)
        want = MEASURES[name](filtered, dt)
        tiny = 1e-10 * A * gain ** (2 if name == "arias_intensity" else 1)
        if name == "pgv" and N % 2 == 0:
            # The highest frequency of the filtered spectrum need not be that of a real record
            c = np.fft.rfft(padded) * tf
            with np.errstate(all="ignore"):
                c = np.where(mot.freqs > 0, c / (2j * np.pi * mot.freqs), 0)
            want = 100 * G * np.abs(np.fft.irfft(c, N)).max()
        else:
            ctx.close(got, getattr(ft, name), f"{name} of the filtered record", 1e-7, tiny)
        ctx.close(got, want, f"filtered {name}", 1e-7, tiny)
        ctx.see("filtered measures")
    # After filtering, the record's own measures are unchanged
    judge(ctx, mot, padded, dt, rng, "record again")
    # Trailing zeros
    z = int(rng.integers(1, n + 3))
    long = build(np.r_[a, np.zeros(z)], None)
    last = a[-1] if N == n else 0.0
    ctx.close(long.pga, mot.pga, "trailing zeros: pga", 1e-9, 1e-13 * A)
    ctx.close(long.arias_intensity, mot.arias_intensity, "trailing zeros: arias", 1e-8, np.pi * G / 4 * dt * last**2 + 1e-14 * A**2)
    ctx.close(long.cav, mot.cav, "trailing zeros: cav", 1e-8, G / 2 * dt * abs(last) + 1e-12 * A)
    ctx.nontrivial(n, dt, fa, a)


def pulses(ctx, rng, i):
    """Displacement pulses of finite length: the velocity is known exactly."""
    m = gen.ps().motion
    dt = float(rng.choice([0.005, 0.01]))
    T = float(rng.uniform(1.0, 4.0))
    n0, n1 = int(rng.integers(5, 80)), int(rng.integers(5, 200))
    t = np.arange(0, T + dt / 2, dt)
    x = np.clip(t / T, 0, 1)
    q = 6
    # d = (x (1 - x))^q cos(2 pi c x): compact, with vanishing net velocity and displacement of the velocity
    P = np.polynomial.Polynomial
    base = (P([0, 1]) * P([1, -1])) ** q * P(rng.uniform(-1, 1, 3))
    v = base.deriv(2)(x) / T**2
    a = base.deriv(3)(x) / T**3
    a0 = np.r_[np.zeros(n0), a, np.zeros(n1)]
    s = float(10 ** rng.uniform(-3, 0)) / np.abs(a0).max()
    mot = m.TimeSeriesMotion("", "", dt, s * a0)
    ctx.case(dt=dt, T=T, n=a0.size)
    ctx.close(mot.pgv, 100 * G * s * np.abs(v).max(), "velocity of a pulse", 1e-4)
    for z in (1, int(rng.integers(2, 700))):
        longer = m.TimeSeriesMotion("", "", dt, np.r_[s * a0, np.zeros(z)])
        for name in MEASURES:
            ctx.close(getattr(longer, name), getattr(mot, name), f"trailing zeros of a pulse: {name}", 1e-4 if name == "pgv" else 1e-8)
    ctx.see("pulses")
    ctx.nontrivial(dt, T, n0, n1)


MONITORS = [
    Monitor("measures", measures, 360, 12000, {f"measured {k}": 1000 for k in MEASURES} | {"filtered measures": 1000}),
    Monitor("pulses", pulses, 120, 4000, {"pulses": 100}),
]
