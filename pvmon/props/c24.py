"""Random records and oscillators (from far below the lowest frequency to far above the
Nyquist frequency, damping 0.1 to 60 percent, any order, repeats) with and without
transfer functions, compared with an explicit frequency-domain oscillator, with
sinusoids of known response, with very stiff oscillators, and with an independent
piecewise-exact time integration. Non-trivial: each distinct record and oscillator set."""
import numpy as np

from .. import gen
from ..core import Monitor
from .c22 import auto_length, record


def nigam_jennings(a, dt, f, z):
    """Peak pseudo-acceleration for piecewise linear acceleration, at samples."""
    w = 2 * np.pi * f
    wd = w * np.sqrt(1 - z * z)
    e = np.exp(-z * w * dt)
    s, c = np.sin(wd * dt), np.cos(wd * dt)
    # Exact step of x'' + 2 z w x' + w^2 x = -a over a linear segment
    u, v, peak = 0.0, 0.0, 0.0
    for k in range(len(a) - 1):
        p0, dp = -a[k], -(a[k + 1] - a[k]) / dt
        # Particular solution: (p0 + dp t)/w^2 - 2 z dp/w^3
        q0 = p0 / w**2 - 2 * z * dp / w**3
        q1 = dp / w**2
        A = u - q0
        B = (v - q1 + z * w * A) / wd
        u1 = e * (A * c + B * s) + q0 + q1 * dt
        v1 = e * ((B * wd - z * w * A) * c - (A * wd + z * w * B) * s) + q1
        u, v = u1, v1
        peak = max(peak, abs(u))
    return peak * w * w


def oscillator(freqs, f, z):
    """Pseudo-acceleration per ground acceleration at each frequency."""
    r = freqs / f
    return 1 / (1 - r**2 + 2j * z * r)


def spectra(ctx, rng, i):
    m = gen.ps().motion
    n, dt, a = record(rng, i, big=False)
    if n < 8:
        a = np.resize(a, 8 + n)
        n = a.size
    fa = int(n + rng.integers(0, n)) if rng.random() < 0.3 else None
    N = fa or auto_length(n)
    padded = np.r_[a, np.zeros(N - n)]
    A = np.abs(a).max()
    k = int(rng.integers(1, 8))
    nyq = 0.5 / dt
    osc = 10 ** rng.uniform(-1.3, np.log10(nyq * 2), k)
    if rng.random() < 0.4:
        osc[0] = np.arange(N // 2 + 1)[int(rng.integers(1, N // 2))] / (N * dt)
    if rng.random() < 0.3:
        osc = np.r_[osc, osc[0]]
    z = float(rng.choice([0.05, 0.001, 0.02, 0.3, rng.uniform(0.002, 0.6), 10 ** rng.uniform(-0.3, 0.7)]))
    ctx.case(n=n, dt=dt, fa_length=fa, osc=osc, damping=z, accels=a)
    mot = m.TimeSeriesMotion("", "", dt, a, fa)
    f = np.arange(N // 2 + 1) / (N * dt)
    C = np.fft.rfft(padded)

    def ref(tf, zz):
        return np.array([np.abs(np.fft.irfft(C * tf * oscillator(f, o, zz), N)).max() for o in osc])

    kw = dict(rtol=1e-8, atol=1e-12 * A)
    arg = osc if rng.random() < 0.6 else list(osc)
    got = mot.calc_osc_accels(arg, z) if rng.random() < 0.5 else mot.calc_osc_accels(arg, osc_damping=z)
    ctx.close(got, ref(1, z), "spectrum", **kw)
    ctx.close(mot.calc_osc_accels(osc), ref(1, 0.05), "default damping", **kw)
    tf = (rng.standard_normal(f.size) + 1j * rng.standard_normal(f.size)) if rng.random() < 0.5 else 1 / (1 + 1j * f / rng.uniform(0.5, 9))
    ctx.close(mot.calc_osc_accels(osc, z, tf), ref(tf, z), "spectrum with a transfer function", **kw)
    ctx.close(mot.calc_osc_accels(osc, z, list(tf)), ref(tf, z), "spectrum with a list", **kw)
    for small in (1e-7, float(10 ** rng.uniform(-6, -2)), float(10 ** rng.uniform(2, 7))):
        ctx.close(mot.calc_osc_accels(osc, z, small * tf), small * ref(tf, z), "spectrum with a small or large transfer function", 1e-8, 1e-12 * A * small)
    ctx.close(mot.calc_osc_accels(osc, z, np.ones(f.size, int)), got, "spectrum with a unit transfer function", **kw)
    # One value per oscillator, in order
    perm = rng.permutation(osc.size)
    ctx.near(mot.calc_osc_accels(osc[perm], z), got[perm], "order of the oscillators")
    for o, g in zip(osc, got):
        ctx.near(mot.calc_osc_accels([o], z), [g], "one oscillator alone")
    s = float(rng.uniform(-4, 4)) if rng.random() < 0.6 else float(10 ** rng.uniform(-7, 5))
    ctx.close(m.TimeSeriesMotion("", "", dt, s * a, fa).calc_osc_accels(osc, z), abs(s) * got, "scaling", **{**kw, "rtol": 1e-7})
    # Without damping, between the frequencies of the transform
    free = np.array([float(rng.integers(1, N // 2) + rng.uniform(0.2, 0.8)) / (N * dt) for _ in range(2)])
    ctx.close(
        mot.calc_osc_accels(free, 0.0 if i % 2 else 0),
        [np.abs(np.fft.irfft(C * oscillator(f, o, 0.0), N)).max() for o in free], "undamped oscillators", **kw,
    )
    # Stiff oscillators follow the ground
    stiff = mot.calc_osc_accels([nyq * 1e5, nyq * 1e4], z)
    ctx.close(stiff, np.full(2, mot.pga), "stiff oscillators", 1e-3)
    ctx.close(mot.calc_osc_accels([nyq * 1e5], z, tf), [mot.calc_pga(tf)], "stiff oscillator of a filtered motion", 1e-3)
    ctx.see("oscillators", osc.size * 4)
    ctx.nontrivial(n, dt, fa, osc, z, a)


def resonance(ctx, rng, i):
    """Steady sinusoids: the amplification is that of the oscillator."""
    m = gen.ps().motion
    N = int(rng.choice([256, 400, 401, 512]))
    dt = 0.01
    k = int(rng.integers(2, N // 8))
    f0 = k / (N * dt)
    a = 0.3 * np.sin(2 * np.pi * f0 * dt * np.arange(N) + rng.uniform(0, 6.28))
    mot = m.TimeSeriesMotion("", "", dt, a, N)
    zs = np.sort(rng.uniform(0.005, 0.5, 5))
    ctx.case(N=N, bin=k, dampings=zs)
    last = np.inf
    # The sampled peak of a sinusoid misses its crest by at most half a step
    miss = 1 - np.cos(np.pi * f0 * dt)
    for z in zs:
        got = float(mot.calc_osc_accels([f0], z)[0])
        ctx.close(got, 0.3 / (2 * z), "resonance", miss + 1e-9, 0)
        ctx.true(got <= last * (1 + miss), "damping raises the resonant response")
        last = got
        r = float(rng.uniform(0.3, 3))
        got = float(mot.calc_osc_accels([f0 * r], z)[0])
        ctx.close(got, 0.3 / np.abs(1 - r**-2 + 2j * z / r), "off resonance", miss + 1e-9)
    ctx.see("resonances", 5)
    ctx.nontrivial(N, k, zs)


def integrated(ctx, rng, i):
    """Against piecewise exact time integration of well sampled records."""
    m = gen.ps().motion
    dt = 0.005
    n = int(rng.integers(300, 700))
    a = gen.wave(rng, n, dt, pga=0.1, kind=str(rng.choice(["noise", "pulse", "sweep"])))
    # Smooth so that linear interpolation between samples is accurate
    w = np.hanning(15)
    a = np.convolve(a, w / w.sum(), "same") * np.hanning(n) ** 0.25
    f = float(10 ** rng.uniform(-0.3, 0.9))
    z = float(rng.uniform(0.02, 0.3))
    # Quiet time for the free vibration to die out before the record repeats
    quiet = int(8 / (z * 2 * np.pi * f) / dt) + 50
    rec = np.r_[a, np.zeros(quiet)]
    ctx.case(n=n, osc_freq=f, damping=z)
    want = nigam_jennings(rec, dt, f, z)
    got = float(m.TimeSeriesMotion("", "", dt, rec, rec.size).calc_osc_accels([f], z)[0])
    ctx.close(got, want, "time integration", 0.02, 1e-4 * np.abs(a).max())
    ctx.see("integrations")
    ctx.nontrivial(n, f, z)


MONITORS = [
    Monitor("spectra", spectra, 300, 9000, {"oscillators": 3000}),
    Monitor("resonance", resonance, 90, 2500, {"resonances": 400}),
    Monitor("integrated", integrated, 90, 2500, {"integrations": 80}),
]
