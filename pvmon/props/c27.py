"""Random profiles, motions (records of even and odd transform lengths, random vibration)
and calculators (linear, equivalent-linear, frequency-dependent). After each analysis
every output type, with random options and locations, is recorded and compared with its
definition applied to the analysis: explicit inverse transforms, oscillators and sums of
the transfer functions, and layer states read one by one. References must match values
one to one. Non-trivial: each distinct analysis."""
import numpy as np
import pykooh

from .. import gen
from ..core import Monitor
from ..wavework import warm  # noqa: F401
from .c24 import oscillator

ASSUMPTIONS = [
    "transfer functions and layer states are those of the analysis (judged by C01 to C08)",
    "pykooh's Konno-Omachi smoothing and pyRVT's peaks are taken as correct",
]
G = 9.80665
FIELDS = ("outcrop", "within", "incoming_only")


def analysis(rng, i):
    """Spec of an analysis every output can be recorded from."""
    kind = ("linear", "eql", "eql", "fdm")[i % 4]
    prof = gen.profile_spec(rng, n=int(rng.integers(1, 7) if rng.random() < 0.93 else rng.integers(7, 25)), max_thick=12, vs=(120, 900))
    if len(prof["layers"]) > 2 and rng.random() < 0.12:
        # A layer without thickness
        prof["layers"][int(rng.integers(1, len(prof["layers"]) - 1))]["thickness"] = 0.0
    if rng.random() < 0.15:
        # Whole numbers given as integers
        for la in prof["layers"]:
            la["thickness"], la["vs"] = int(np.ceil(la["thickness"])), int(la["vs"])
    if rng.random() < 0.2:
        m = gen.rvt_spec(rng, n=int(rng.integers(40, 80)), scale=10 ** rng.uniform(-3.5, -1.6))
    else:
        m = gen.ts_spec(rng, n=int(rng.choice([100, 128, 200, 255, 300])), pga=10 ** rng.uniform(-3, -0.7), kind="noise" if kind == "fdm" else None)
    if m["kind"] == "ts" and rng.random() < 0.06:
        # Next to no motion
        m["accels"] = m["accels"] * 10 ** rng.uniform(-9, -5)
    loc = gen.base_loc(str(rng.choice(["outcrop", "outcrop", "within", "incoming_only"])))
    return {"calc": kind, "method": str(rng.choice(["zr15", "zr15", "ka02", "ko:20"])), "profile": prof, "motion": m, "loc": loc}


def run(spec):
    pr = gen.ps().propagation
    prof = gen.build_profile(spec["profile"])
    mot = gen.build_motion(spec["motion"])
    if spec["calc"] == "linear":
        calc = pr.LinearElasticCalculator()
    elif spec["calc"] == "eql":
        calc = pr.EquivalentLinearCalculator(strain_limit=0.0)
    else:
        calc = pr.FrequencyDependentEqlCalculator(method=spec.get("method", "zr15"), strain_limit=0.0, max_iterations=4)
    calc(mot, prof, gen.build_location(prof, spec["loc"]))
    return calc


def out_loc(rng, prof, field=None):
    """(OutputLocation, spec) at a layer, a depth, the surface or below the base."""
    o = gen.ps().output
    m = gen.ps().motion
    s = gen.location_spec(rng, prof, field)
    if s["depth"] is None and rng.random() < 0.2:
        s = {**s, "index": 0}
    f = s["field"] if rng.random() < 0.5 else m.WaveField[s["field"]]
    kw = {k: s[k] for k in ("depth", "index") if s[k] is not None}
    return o.OutputLocation(f, **kw), s


class Truth:
    """Definitions of the recorded quantities."""

    def __init__(self, calc, spec):
        self.calc, self.m, self.ps = calc, spec["motion"], spec["profile"]
        self.mot = calc.motion
        if self.m["kind"] == "ts":
            a = self.m["accels"]
            n = self.m["fa_length"]
            if n is None:
                n = 1
                while n < a.size:
                    n *= 2
            self.N, self.dt = n, self.m["dt"]
            self.C = np.fft.rfft(a, n)
            self.freqs = np.arange(n // 2 + 1) / (n * self.dt)
        else:
            self.freqs = self.m["freqs"]

    def loc(self, s):
        return gen.build_location(self.calc.profile, s)

    def tf(self, what, s, s_in=None, **kw):
        f = getattr(self.calc, f"calc_{what}_tf")
        return np.asarray(f(self.calc.loc_input if s_in is None else self.loc(s_in), self.loc(s), **kw))

    def series(self, tf):
        return np.fft.irfft(self.C * tf, self.N)

    def peak(self, tf):
        if self.m["kind"] == "ts":
            return np.abs(self.series(tf)).max()
        return float(self.mot.calc_peak(tf))

    def fas(self):
        return np.abs(self.C) * self.dt if self.m["kind"] == "ts" else np.abs(self.m["amps"])

    def osc(self, freqs, z, tf):
        if self.m["kind"] == "ts":
            return np.array([self.peak(tf * oscillator(self.freqs, f, z)) for f in freqs])
        return np.asarray(self.mot.calc_osc_accels(freqs, z, tf))


def interp(x, xp, fp):
    """Piecewise linear with held ends."""
    out = np.empty(len(x), dtype=np.asarray(fp).dtype)
    for k, v in enumerate(x):
        if v <= xp[0]:
            out[k] = fp[0]
        elif v >= xp[-1]:
            out[k] = fp[-1]
        else:
            j = int(np.searchsorted(xp, v, "right")) - 1
            w = (v - xp[j]) / (xp[j + 1] - xp[j])
            out[k] = fp[j] + w * (fp[j + 1] - fp[j])
    return out


def recorded(ctx, out, calc, label, refs, values, rtol=1e-9, atol=0.0):
    name = "run"
    out(calc, name=name)
    ctx.equal(list(out.names), [name], f"{label} name")
    ctx.equal(np.shape(out.values), np.shape(values), f"{label} shape")
    ctx.equal(np.shape(out.refs), np.shape(out.values), f"{label} references match values")
    ctx.close(out.refs, refs, f"{label} references", 1e-12, 1e-12)
    v = np.asarray(out.values)
    values = np.asarray(values)
    if np.any(np.isnan(values)):
        ctx.same(np.isnan(v), np.isnan(values), f"{label} missing values")
        v, values = v[~np.isnan(v)], values[~np.isnan(values)]
    ctx.close(v, values, f"{label} values", rtol, atol)
    for n, r, val in out.iter_results():
        ctx.equal(n, name, f"{label} iterated name")
        ctx.same(r, out.refs, f"{label} iterated references")
        ctx.same(val, out.values, f"{label} iterated values")
    ctx.see(f"recorded: {label.split(',')[0]}")


def outputs(ctx, rng, i):
    outputs_of(ctx, rng, analysis(rng, i))


def outputs_of(ctx, rng, spec):
    o = gen.ps().output
    ctx.case(**spec)
    calc = run(spec)
    ts = spec["motion"]["kind"] == "ts"
    t = Truth(calc, spec)
    prof = calc.profile
    nl = len(prof)
    before = [np.concatenate([np.atleast_1d(np.asarray(la.damping, float)), np.atleast_1d(np.asarray(la.shear_mod, float))]) for la in prof]
    total = float(sum(la["thickness"] for la in spec["profile"]["layers"][:-1]))

    # Time series
    if ts:
        times = t.dt * np.arange(t.N)
        for field in (None, "within"):
            ol, s = out_loc(rng, spec["profile"], field)
            x = t.series(t.tf("accel", s))
            recorded(ctx, o.AccelerationTSOutput(ol), calc, "acceleration series", times, x, 1e-8, 1e-11 * np.abs(x).max() + 1e-300)
        ol, s = out_loc(rng, spec["profile"])
        x = t.series(t.tf("accel", s))
        ai = np.r_[0, np.cumsum((x[1:] ** 2 + x[:-1] ** 2) / 2)] * t.dt * np.pi * G / 2
        recorded(ctx, o.AriasIntensityTSOutput(ol), calc, "Arias series", times, ai, 1e-8, 1e-10 * ai.max() + 1e-300)
        ol, s = out_loc(rng, spec["profile"], "within")
        percent = bool(rng.random() < 0.5)
        x = t.series(t.tf("strain", s)) * (100 if percent else 1)
        out = o.StrainTSOutput(ol, percent) if rng.random() < 0.5 else o.StrainTSOutput(ol, in_percent=percent)
        recorded(ctx, out, calc, "strain series", times, x, 1e-8, 1e-11 * np.abs(x).max() + 1e-300)
        ctx.true(("%" in out.ylabel) == percent, "unit in the strain label")
        ol, s = out_loc(rng, spec["profile"], "within")
        damped = bool(rng.random() < 0.5)
        k, off = gen.resolve(spec["profile"], s)
        depth = sum(la["thickness"] for la in spec["profile"]["layers"][:k]) + off
        normal = bool(rng.random() < 0.5) and depth > 0.05 and k < nl - 1
        tf = t.tf("stress", s, damped=damped)
        la = calc.profile[k]
        ctx.close(tf, t.tf("strain", s) * (la.comp_shear_mod if damped else la.shear_mod), "stress transfer function of the strain", 1e-9)
        x = t.series(tf)
        if normal:
            ls = spec["profile"]["layers"]
            so = spec["profile"]["soils"]
            sv = sum(la["thickness"] * so[la["soil"]]["unit_wt"] for la in ls[:k]) + off * so[ls[k]["soil"]]["unit_wt"]
            pore = max(0.0, depth - spec["profile"]["wt_depth"]) * 9.80665
            x = x / (sv - pore)
        recorded(ctx, o.StressTSOutput(ol, damped=damped, normalized=normal), calc, "stress series", times, x, 1e-8, 1e-9 * np.abs(x).max() + 1e-300)
        for cls in (o.StrainTSOutput, o.StressTSOutput):
            ctx.raises(lambda c=cls: c(o.OutputLocation(str(rng.choice(["outcrop", "incoming_only"])), index=0)), "strain or stress of an outcrop", BaseException)

    # Spectra
    lo, hi = (0.3, 0.4 / t.dt) if ts else (0.3, 20.0)
    freqs = np.sort(10 ** rng.uniform(np.log10(lo), np.log10(hi), int(rng.integers(2, 9))))
    if rng.random() < 0.15:
        freqs = np.sort(10 ** rng.uniform(np.log10(lo), np.log10(hi), int(rng.integers(1, 60))))
    u = rng.random()
    if u < 0.25:
        freqs = freqs[::-1].copy()
    elif u < 0.4:
        freqs = rng.permutation(np.r_[freqs, freqs[:1]])
    arg = list(freqs) if rng.random() < 0.3 else freqs
    ol, s = out_loc(rng, spec["profile"])
    fas = np.abs(t.tf("accel", s)) * t.fas()
    bw = None if rng.random() < 0.4 else float(rng.choice([20, 30, 50]))
    want = interp(freqs, t.freqs, fas) if bw is None else np.asarray(pykooh.smooth(freqs, t.freqs, fas, bw))
    recorded(ctx, o.FourierAmplitudeSpectrumOutput(arg, ol, ko_bandwidth=bw), calc, "Fourier spectrum", freqs, want, 1e-8, 1e-12 * fas.max())
    if rng.random() < 0.3:
        recorded(ctx, o.FourierAmplitudeSpectrumOutput(arg, ol), calc, "Fourier spectrum, default", freqs, np.asarray(pykooh.smooth(freqs, t.freqs, fas, 30)), 1e-8, 1e-12 * fas.max())

    ol, s = out_loc(rng, spec["profile"])
    z = float(rng.choice([0.05, 0.02, 0.3]))
    out = o.ResponseSpectrumOutput(arg, ol, z)
    recorded(ctx, out, calc, "response spectrum", freqs, t.osc(freqs, z, t.tf("accel", s)), 1e-8)
    ctx.close(out.periods, 1 / freqs, "periods", 1e-12)
    ctx.equal(out.osc_damping, z, "oscillator damping")

    oi, si = out_loc(rng, spec["profile"])
    oo, so_ = out_loc(rng, spec["profile"])
    want = t.osc(freqs, z, t.tf("accel", so_)) / t.osc(freqs, z, t.tf("accel", si))
    out = o.ResponseSpectrumRatioOutput(arg, oi, oo, z)
    recorded(ctx, out, calc, "response spectrum ratio", freqs, want, 1e-8)
    ctx.close(out.periods, 1 / freqs, "periods of a ratio", 1e-12)
    ctx.close(out.freqs, freqs, "frequencies of a ratio", 1e-12)
    ctx.equal(out.osc_damping, z, "oscillator damping of a ratio")
    ctx.true(out.location_in is oi and out.location_out is oo, "locations of a ratio")

    bw = None if rng.random() < 0.5 else float(rng.choice([20, 30, 50]))
    absolute = bool(rng.random() < 0.6) or bw is not None
    tf = t.tf("accel", so_, si)
    tf = np.abs(tf) if absolute else tf
    want = interp(freqs, t.freqs, tf) if bw is None else np.asarray(pykooh.smooth(freqs, t.freqs, tf, bw))
    if bw is None or rng.random() < 0.5:
        out = o.AccelTransferFunctionOutput(arg, oi, oo, ko_bandwidth=bw, absolute=absolute)
    else:
        out = o.AccelTransferFunctionOutput(arg, oi, oo, bw)
    if absolute and bw is None and rng.random() < 0.5:
        out = o.AccelTransferFunctionOutput(arg, oi, oo)
    with np.errstate(all="ignore"):
        big = np.nanmax(np.abs(tf))
    recorded(ctx, out, calc, "transfer function" + ("" if absolute else ", complex"), freqs, want, 1e-8, 1e-12 * big)
    ctx.see("complex transfer functions", not absolute)

    # Profiles
    tops = np.r_[0.0, np.cumsum([la["thickness"] for la in spec["profile"]["layers"][:-1]])]
    mids = [tops[k] + la["thickness"] / 2 for k, la in enumerate(spec["profile"]["layers"][:-1])]
    above = list(prof)[:-1]
    rep = lambda v: np.r_[v[0], v]
    recorded(ctx, o.InitialVelProfile(), calc, "initial velocity profile", tops, rep([la["vs"] for la in spec["profile"]["layers"][:-1]]), 1e-12)
    # Properties that differ between frequencies: the most degraded of them
    recorded(ctx, o.DampingProfile(), calc, "damping profile", tops, rep([float(np.max(la.damping)) for la in above]), 1e-12)
    recorded(
        ctx, o.ShearModReducProfile(), calc, "modulus reduction profile", tops,
        rep([float(np.min(la.shear_mod)) / (la.unit_wt / G * la.initial_shear_vel**2) for la in above]), 1e-9,
    )
    vel = [np.sqrt(np.min(np.asarray(la.shear_mod, float)) / (la.unit_wt / G)) for la in above]
    recorded(ctx, o.CompatVelProfile(), calc, "compatible velocity profile", tops, rep(vel), 1e-9)
    if spec["calc"] != "linear":
        recorded(ctx, o.MaxStrainProfile(), calc, "maximum strain profile", np.r_[0, mids], np.r_[0, [float(np.max(la.strain_max)) for la in above]], 1e-12)
        csr = []
        ls, so = spec["profile"]["layers"], spec["profile"]["soils"]
        sv = 0.0
        for k, la in enumerate(above):
            g = so[ls[k]["soil"]]["unit_wt"]
            pore = max(0.0, mids[k] - spec["profile"]["wt_depth"]) * 9.80665
            csr.append(0.65 * float(np.min(la.shear_mod)) * float(np.max(la.strain_max)) / (sv + g * ls[k]["thickness"] / 2 - pore))
            sv += g * ls[k]["thickness"]
        recorded(ctx, o.CyclicStressRatioProfile(), calc, "stress ratio profile", np.r_[0, mids], rep(csr), 1e-8)
    pk = [t.peak(t.tf("accel", {"field": "within", "depth": None, "index": k})) for k in range(nl)]
    recorded(ctx, o.MaxAccelProfile(), calc, "acceleration profile", tops, pk, 1e-7)
    ctx.close(total, tops[-1], "depth to the base", 1e-12)
    for la, b in zip(prof, before):
        ctx.same(np.concatenate([np.atleast_1d(np.asarray(la.damping, float)), np.atleast_1d(np.asarray(la.shear_mod, float))]), b, "state after recording")
    ctx.see(f"analyses: {spec['calc']}")
    ctx.see("random-vibration analyses", not ts)
    ctx.nontrivial(spec)


KINDS = [
    "acceleration series", "Arias series", "strain series", "stress series", "Fourier spectrum", "response spectrum",
    "response spectrum ratio", "transfer function", "initial velocity profile", "damping profile",
    "modulus reduction profile", "compatible velocity profile", "maximum strain profile", "stress ratio profile",
    "acceleration profile",
]
MONITORS = [
    Monitor(
        "outputs", outputs, 240, 8000,
        {**{f"recorded: {k}": 60 for k in KINDS}, "complex transfer functions": 20, "random-vibration analyses": 15},
    ),
]
