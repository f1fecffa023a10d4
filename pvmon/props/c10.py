"""Random profiles (increasing, layered and inverted velocities, half-spaces with and
without thickness, single half-spaces) and random frequency grids. The definition is
evaluated by inverting the exact travel-time curve; the calculator's documented 1 %
depth iteration is covered by bracketing the amplitude over travel times within 2 % of
a quarter period. Non-trivial: amplification differing from one by more than 2 %."""
import copy

import numpy as np

from .. import gen
from ..core import Monitor
from ..wavework import spec_props, warm  # noqa: F401

ASSUMPTIONS = [
    "the depth iteration may stop with travel times within 2.1 % of a quarter period",
    "a refusal to converge is accepted only where the local slowness exceeds three times the average above",
]
TT = 0.0205


class Column:
    """Travel time and mass as functions of depth."""

    def __init__(self, thick, slow, rho):
        self.top = np.r_[0.0, np.cumsum(thick[:-1])]
        self.slow, self.rho = np.asarray(slow), np.asarray(rho)
        dz = np.diff(self.top)
        self.t = np.r_[0.0, np.cumsum(dz * self.slow[:-1])]
        self.m = np.r_[0.0, np.cumsum(dz * self.rho[:-1])]

    def _at(self, base, rate, z):
        k = np.searchsorted(self.top, z, side="right") - 1
        return base[k] + rate[k] * (z - self.top[k])

    def time(self, z):
        return self._at(self.t, self.slow, z)

    def mass(self, z):
        return self._at(self.m, self.rho, z)

    def depth(self, t):
        k = np.searchsorted(self.t, t, side="right") - 1
        return self.top[k] + (t - self.t[k]) / self.slow[k]

    def knots(self, a, b):
        return np.r_[np.linspace(a, b, 9), self.top[(self.top > a) & (self.top < b)]]


def eta_ba23(x):
    f = (x + 1.301) / 1.398
    return 0.56 * f**4 / ((1 - f**6) ** 2 + 0.76 * f**3) ** 0.333


def bounds(col, freqs, eta):
    lo, hi = np.empty(freqs.size), np.empty(freqs.size)
    src = col.rho[-1] / col.slow[-1]
    for j, f in enumerate(freqs):
        q = 1 / (4 * f)
        z1, z2 = col.depth(q / (1 + TT)), col.depth(q / (1 - TT))
        zs = col.knots(z1, z2)
        s = col.time(zs) / zs
        zr = col.knots(0.989 * z1, 1.011 * z2)
        r = col.mass(zr) / zr
        a = [src / (r.max() / s.min()), src / (r.min() / s.max())]
        e = eta if np.ndim(eta) == 0 else eta[j]
        v = sorted(x**e for x in a)
        lo[j], hi[j] = v
    return lo, hi


def column_of(spec):
    thick, vs, rho, _ = spec_props(spec, None)
    thick = np.array(thick)
    return Column(thick, 1 / np.array(vs), np.array(rho))


def judge(ctx, calc, spec, freqs, method, kappa, label=""):
    col = column_of(spec)
    eta = 0.5
    if method == "ba23":
        fbot = 1 / (4 * col.t[-1])
        eta = eta_ba23(np.log10(freqs / fbot))
    lo, hi = bounds(col, freqs, eta)
    amp = np.asarray(calc.crustal_amp)
    ctx.true(amp.shape == freqs.shape, f"{label}{method}: one amplification per frequency")
    ok = np.isfinite(lo) & np.isfinite(hi)
    bad = ok & ~((amp >= lo * (1 - 1e-9)) & (amp <= hi * (1 + 1e-9)))
    if bad.any():
        j = int(np.argmax(bad))
        ctx.fail(f"{label}{method}: amplification", f"at {freqs[j]:.4g} Hz: got {amp[j]:.6g}, expected within [{lo[j]:.6g}, {hi[j]:.6g}]")
    want = amp * (np.exp(-np.pi * kappa * freqs) if kappa else 1.0)
    ctx.close(np.asarray(calc.site_term)[ok], want[ok], f"{label}{method}: site term", 1e-12)
    ctx.see("amplifications", int(ok.sum()))
    ctx.obs["oracle evaluations"] += freqs.size
    return col, amp, hi / lo


def inverted(col, factor=3.0):
    z = np.r_[col.top[1:], col.top[1:] + 1e-9]
    if not z.size:
        return False
    k = np.searchsorted(col.top, z, side="right") - 1
    return bool(np.any(z * col.slow[k] / col.time(z) > factor))


def run(ctx, spec, freqs, method, kappa):
    calc = gen.ps().propagation.QuarterWaveLenCalculator(site_atten=kappa, method=method)
    prof = gen.build_profile(spec)
    mot = gen.build_motion({"kind": "freqs", "freqs": freqs})
    try:
        calc(mot, prof, prof.location("outcrop", index=-1))
    except RuntimeError as e:
        ctx.true(inverted(column_of(spec)), "refused to converge", str(e))
        ctx.see("refused (strong inversion)")
        return None
    ctx.equal(calc.method, method, "reported method")
    ctx.equal(calc.site_atten, kappa, "reported site attenuation")
    return calc


def qwl_spec(rng, i):
    spec = gen.profile_spec(rng, nonlinear=False, max_thick=80)
    if i % 2:
        # Velocity increasing with depth, the usual case
        vs = sorted(la["vs"] for la in spec["layers"])
        for la, v in zip(spec["layers"], vs):
            la["vs"] = v
    if i % 23 == 0:
        spec["layers"] = spec["layers"][-1:]
    return spec


def definition(ctx, rng, i):
    spec = qwl_spec(rng, i)
    freqs = gen.freqs_spec(rng, n=int(rng.integers(3, 60)), zero=False)["freqs"]
    freqs = np.maximum(freqs, 0.02)
    if i % 5 == 0:
        freqs = rng.permutation(freqs)
    method = "ba23" if i % 3 == 0 and len(spec["layers"]) > 1 else "standard"
    kappa = [None, 0.0, float(rng.uniform(0.001, 0.08)), float(10.0 ** rng.uniform(-5, -1))][int(rng.integers(4))]
    ctx.case(profile=spec, freqs=freqs, method=method, kappa=kappa)
    calc = run(ctx, spec, freqs, method, kappa)
    if calc is None:
        return
    col, amp, width = judge(ctx, calc, spec, freqs, method, kappa)
    ctx.see("tight brackets (within 2 %)", int(np.sum(width < 1.02)))
    if np.nanmax(np.abs(amp - 1)) > 0.02:
        ctx.nontrivial(spec, freqs, method)


def uniform(ctx, rng, i):
    """A uniform profile does not amplify; splitting layers changes nothing."""
    spec = qwl_spec(rng, 2 * i + 1)
    freqs = np.maximum(gen.freqs_spec(rng, n=20, zero=False)["freqs"], 0.02)
    uni = copy.deepcopy(spec)
    for la in uni["layers"]:
        la.update(vs=spec["layers"][0]["vs"], soil=spec["layers"][0]["soil"], dmin=None)
    method = "ba23" if i % 2 and len(uni["layers"]) > 1 else "standard"
    ctx.case(profile=spec, freqs=freqs)
    calc = run(ctx, uni, freqs, method, None)
    ctx.true(calc is not None, "uniform profile refused")
    ok = np.isfinite(calc.crustal_amp)
    ctx.close(np.asarray(calc.crustal_amp)[ok], np.ones(ok.sum()), "uniform profile amplifies", 1e-9)
    split = copy.deepcopy(spec)
    parts = []
    for la in spec["layers"][:-1]:
        m = int(rng.integers(1, 4))
        parts += [{**la, "thickness": la["thickness"] / 4 * x} for x in ((4,), (1, 3), (2, 1, 1))[m - 1]]
    split["layers"] = parts + [
        {**spec["layers"][-1], "thickness": 7.0} for _ in range(int(rng.integers(0, 2)))
    ] + spec["layers"][-1:]
    calc = run(ctx, split, freqs, "standard", 0.02)
    if calc is not None:
        # judged against the column of the profile before it was split
        judge(ctx, calc, spec, freqs, "standard", 0.02, "split layers: ")
        ctx.see("split profiles")
    ctx.nontrivial(spec, freqs)


def rerun(ctx, rng, i):
    """One calculator used for several profiles and frequency grids."""
    calc = gen.ps().propagation.QuarterWaveLenCalculator()
    specs = [qwl_spec(rng, 2 * k + 1) for k in range(3)]
    ctx.case(profiles=specs)
    for spec in specs:
        freqs = np.maximum(gen.freqs_spec(rng, n=12, zero=False)["freqs"], 0.02)
        prof = gen.build_profile(spec)
        calc(gen.build_motion({"kind": "freqs", "freqs": freqs}), prof, prof.location("outcrop", index=-1))
        judge(ctx, calc, spec, freqs, "standard", None, "reused calculator: ")
        ctx.true(calc.profile is prof and calc.motion is not None, "reports its profile")
    ctx.nontrivial(specs)


MONITORS = [
    Monitor("definition", definition, 500, 15000, {"amplifications": 5000, "tight brackets (within 2 %)": 3000}),
    Monitor("uniform", uniform, 150, 4000, {"split profiles": 100}),
    Monitor("rerun", rerun, 60, 1500),
]
