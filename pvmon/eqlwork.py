"""Shared workload and reference for the equivalent-linear properties."""
import numpy as np

from . import gen, ref
from .wavework import layer_props


class Overrun(Exception):
    """The analysis evaluates strains without end."""


def recording(base, limit=100000):
    """A motion class that records the peaks asked of it."""

    class Recording(base):
        peaks = ()

        def calc_peak(self, tf=None, **kwds):
            value = super().calc_peak(tf, **kwds)
            self.peaks = self.peaks + (float(value),)
            if len(self.peaks) > limit:
                raise Overrun(f"{len(self.peaks)} peak evaluations")
            return value

    return Recording


def ts_fourier(spec):
    """Frequencies, transform and peak function of a time-series spec."""
    a = np.asarray(spec["accels"], dtype=float)
    n = spec["fa_length"]
    if n is None:
        n = 1
        while n < a.size:
            n *= 2
    fas = np.fft.rfft(a, n)
    freqs = np.arange(n // 2 + 1) / (n * spec["dt"])

    def peak(tf):
        return np.abs(np.fft.irfft(tf * fas, n)).max()

    return freqs, fas * spec["dt"], peak


def motion_parts(spec, mot):
    """freqs, |FAS|, peak(tf) of the input motion, independent for records."""
    if spec["kind"] == "ts":
        return ts_fourier(spec)
    twin = gen.build_motion(spec)
    return spec["freqs"], spec["amps"], lambda tf: float(twin.calc_peak(tf))


def strain_tf(sh, where_in, field, where_out):
    den = sh.field(where_in, field)
    with np.errstate(all="ignore"):
        t = gen.G * sh.strain(where_out) / (-(sh.w**2) * den)
    t[sh.w == 0] = 0
    return t


def step(profile_like, freqs, peak, where_in, field, ratio):
    """Effective strains implied by properties (thick, vs, rho, damp)."""
    sh = ref.SH(freqs, *profile_like)
    out = []
    for i in range(len(profile_like[0]) - 1):
        out.append(ratio * peak(strain_tf(sh, where_in, field, (i, profile_like[0][i] / 2))))
    return np.array(out)


def eql_case(rng, n=None, pga=None, rvt=None, base_loc=None, nonlinear=None, kind=None, max_thick=10):
    """Profile and motion for a nonlinear analysis of moderate strains."""
    spec = gen.profile_spec(
        rng, n=n or int(rng.integers(1, 7) if rng.random() < 0.9 else rng.integers(7, 20)), nonlinear=nonlinear, max_thick=max_thick, vs=(120, 900)
    )
    if rvt or (rvt is None and rng.random() < 0.2):
        m = gen.rvt_spec(rng, n=int(rng.integers(40, 90)), scale=10 ** rng.uniform(-3.5, -1.3))
    else:
        m = gen.ts_spec(rng, n=int(rng.choice([128, 200, 256, 301, 512])), pga=pga or 10 ** rng.uniform(-3, -0.4), kind=kind)
    loc = base_loc or gen.base_loc(str(rng.choice(["outcrop", "outcrop", "within", "incoming_only"])))
    if base_loc is None and rng.random() < 0.15:
        loc = {"field": "outcrop", "index": int(rng.integers(len(spec["layers"]))), "depth": None}
    return spec, m, loc


def snapshot(prof):
    return [np.atleast_1d(getattr(la, a)) for la in prof for a in ("strain", "shear_mod", "damping")]


def check_state(ctx, prof, layers=None, label="", rtol=1e-9):
    """Modulus and damping are the soil's curves at the reported strain."""
    for i, la in enumerate(prof if layers is None else layers):
        gmax = la.unit_wt / gen.G * la.initial_shear_vel**2
        g, d = ref.soil_state(la.soil_type, gmax, la.damping_min, la.strain)
        gg, dd = np.asarray(la.shear_mod), np.asarray(la.damping)
        ctx.true(np.all(np.isfinite(gg)) and np.all(np.isfinite(dd)), f"{label}finite properties")
        ctx.close(gg * np.ones_like(g), g, f"{label}shear modulus at the reported strain", rtol, layer=i)
        ctx.close(dd * np.ones_like(d), d, f"{label}damping at the reported strain", rtol, 1e-12, layer=i)
        ctx.see("layer states")


__all__ = ["layer_props"]
