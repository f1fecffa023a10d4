"""Random-vibration motions of all three kinds (user spectra in increasing or decreasing
order, given as arrays or lists; response-spectrum compatible; source theory) with all
peak calculators. Peaks, velocities and oscillator responses are compared with own
estimates (Vanmarcke and Cartwright-Longuet-Higgins by quadrature) and with the named
calculator; scaled twins must scale; linear, equivalent-linear and frequency-dependent
analyses are run with each kind, the strains compared with the random-vibration estimate
for the reported properties, and every output that needs no time history compared with
its definition. Non-trivial: each distinct motion or analysis."""
import numpy as np
import pyrvt
from scipy.integrate import quad

from .. import gen, ref
from ..core import Monitor
from ..eqlwork import check_state, layer_props, strain_tf
from ..wavework import warm  # noqa: F401
from .c27 import outputs_of

ASSUMPTIONS = [
    "pyRVT's calculators other than V75 and CLH56, and its spectra of compatible and source-theory motions, are taken as correct",
]
PLAIN = ["V75", "D64", "DK85", "TM87", "CLH56", "BJ84", "LP99"]
EVENT = ["BT12", "BT15", "WR18"]
NAMES = {"V75": "Vanmarcke (1975)", "BJ84": "Boore & Joyner (1984)"}


def trapz(y, x):
    return float(np.sum((y[1:] + y[:-1]) * np.diff(x)) / 2)


def estimate(freqs, amps, duration, tf, which):
    """Expected peak of a stationary process, in the units of amps/s times tf."""
    a2 = np.abs(np.asarray(amps) * tf) ** 2
    m = [2 * trapz((2 * np.pi * freqs) ** k * a2, freqs) for k in (0, 1, 2, 4)]
    rms = np.sqrt(m[0] / duration)
    if which == "V75":
        nz = max(1.33, duration * np.sqrt(m[2] / m[0]) / np.pi)
        de = np.sqrt(max(1 - m[1] ** 2 / (m[0] * m[2]), 0)) ** 1.2

        def ccdf(x):
            if x < 1e-4:
                return 1.0
            return 1 - (1 - np.exp(-(x**2) / 2)) * np.exp(-nz * (1 - np.exp(-np.sqrt(np.pi / 2) * de * x)) / np.expm1(x**2 / 2))

        pf = quad(ccdf, 0, 12, limit=200)[0]
    else:
        bw = np.sqrt(m[2] ** 2 / (m[0] * m[3]))
        ne = max(1.33, duration * np.sqrt(m[3] / m[2]) / np.pi)
        pf = np.sqrt(2) * quad(lambda x: 1 - (1 - bw * np.exp(-(x**2))) ** ne, 0, 8, limit=200)[0]
    return pf * rms


def oscillator(freqs, f, z):
    r = freqs / f
    return 1 / (1 - r**2 + 2j * z * r)


def calculator(rng):
    """Name and keywords of a peak calculator."""
    if rng.random() < 0.4:
        return None, None
    if rng.random() < 0.6:
        return str(rng.choice(PLAIN)), None
    return str(rng.choice(EVENT)), {
        "region": str(rng.choice(["wna", "cena"])), "mag": float(rng.uniform(5, 7.5)), "dist": float(rng.uniform(5, 150)),
    }


def motion_spec(rng, kind):
    name, kw = calculator(rng)
    if kind == "rvt":
        m = gen.rvt_spec(rng, n=int(rng.integers(40, 150)))
        return {**m, "peak": name, "calc_kwds": kw}
    kwds = {}
    if name:
        kwds = {"peak_calculator": name, "calc_kwds": kw}
    if kind == "compat":
        f = np.logspace(np.log10(rng.uniform(0.2, 0.5)), np.log10(rng.uniform(15, 60)), int(rng.integers(12, 40)))
        pga, fc = 10 ** rng.uniform(-3, -1), rng.uniform(1, 6)
        sa = pga * (1 + rng.uniform(0.8, 1.6) * np.exp(-(np.log(f / fc) ** 2)))
        if rng.random() < 0.3:
            f, sa = f[::-1].copy(), sa[::-1].copy()
        if rng.random() < 0.7:
            kwds["duration"] = float(rng.uniform(3, 25))
        if "duration" not in kwds or rng.random() < 0.25:
            kwds["event_kwds"] = {"magnitude": float(rng.uniform(5, 7)), "distance": float(rng.uniform(5, 80)), "region": "wna"}
        if rng.random() < 0.5:
            kwds["osc_damping"] = float(rng.choice([0.02, 0.05, 0.1]))
        if rng.random() < 0.25:
            kwds["window_len"] = int(rng.choice([3, 5, 9]))
        return {"kind": "compat", "osc_freqs": f, "osc_accels": sa, "kwds": kwds}
    far = rng.random() < 0.2
    args = [float(rng.uniform(3, 8.3) if far else rng.uniform(4.5, 7.5)), float(10 ** rng.uniform(0.3, 2.8) if far else rng.uniform(5, 150)), str(rng.choice(["wna", "cena"]))]
    if rng.random() < 0.5:
        kwds["stress_drop"] = float(10 ** rng.uniform(0.5, 3) if far else rng.uniform(30, 300))
    if rng.random() < 0.5:
        kwds["depth"] = int(rng.integers(1, 40)) if far else float(rng.uniform(2, 20))
    if rng.random() < 0.15:
        # A source at the surface
        kwds["depth"] = 0
    if rng.random() < 0.3:
        kwds.update(zip(("magnitude", "distance", "region"), args))
        args = []
    return {"kind": "source", "args": args, "kwds": kwds}


def peer(spec):
    """The motion of pyRVT with the same arguments."""
    m = pyrvt.motions
    if spec["kind"] == "rvt":
        return m.RvtMotion(spec["freqs"], spec["amps"], spec["duration"], spec["peak"], spec["calc_kwds"])
    if spec["kind"] == "compat":
        return m.CompatibleRvtMotion(spec["osc_freqs"], spec["osc_accels"], **spec["kwds"])
    return m.SourceTheoryMotion(*spec["args"], **spec["kwds"])


def build(spec, rng=None):
    m = gen.ps().motion
    if spec["kind"] != "rvt":
        return gen.build_motion(spec)
    f, a = spec["freqs"].copy(), spec["amps"].copy()
    if rng is not None:
        if rng.random() < 0.4:
            f, a = f[::-1], a[::-1]
        if rng.random() < 0.3:
            f, a = list(f), list(a)
    return m.RvtMotion(f, a, spec["duration"], spec["peak"], spec["calc_kwds"])


def calc_name(spec):
    return (spec["peak"] if spec["kind"] == "rvt" else spec["kwds"].get("peak_calculator")) or "V75"


def motions(ctx, rng, i):
    kind = ("rvt", "rvt", "rvt", "compat", "source")[i % 5]
    spec = motion_spec(rng, kind)
    ctx.case(**spec)
    mot = build(spec, rng)
    other = peer(spec)
    ctx.true(isinstance(mot, gen.ps().motion.Motion), "a motion")
    ctx.close(mot.freqs, other.freqs, "frequencies", 1e-12)
    ctx.close(mot.fourier_amps, other.fourier_amps, "Fourier amplitudes", 1e-9)
    ctx.close(float(mot.duration), float(other.duration), "duration", 1e-12)
    f, a, d = np.asarray(other.freqs), np.asarray(other.fourier_amps), float(other.duration)
    ctx.close(mot.angular_freqs, 2 * np.pi * f, "angular frequencies", 1e-12)
    name = calc_name(spec)
    ctx.see(f"calculator: {name}")
    own = name in ("V75", "CLH56")

    def want(tf):
        got = float(other.peak_calculator(d, f, np.abs(a * tf))[0])
        if own:
            e = estimate(f, a, d, tf, name)
            ctx.close(got, e, "reference calculator", 2e-3)
            ctx.see("own estimates")
        return got

    unit = np.ones(f.size)
    tf = 1 / (1 - (f / rng.uniform(0.5, 10)) ** 2 + 0.4j * f / rng.uniform(0.5, 10)) if rng.random() < 0.5 else (
        rng.uniform(0.2, 3, f.size) * np.exp(1j * rng.uniform(0, 6, f.size))
    )
    if rng.random() < 0.3:
        tf = tf * 10 ** rng.uniform(-6, 6)
    w = 2j * np.pi * f
    kw = dict(rtol=1e-8)
    pga, pgv = want(unit), 981 * want(1 / w) / 981 * gen.G * 100
    order = rng.permutation(8)
    for k in order:
        if k == 0:
            ctx.close(float(mot.pga), pga, "pga", **kw)
        elif k == 1:
            ctx.close(float(mot.pgv), pgv, "pgv", **kw)
        elif k == 2:
            ctx.close(float(mot.calc_peak()), pga, "peak", **kw)
            ctx.close(float(mot.calc_pga()), pga, "computed pga", **kw)
        elif k == 3:
            ctx.close(float(mot.calc_peak(tf)), want(tf), "filtered peak", **kw)
            ctx.close(float(mot.calc_pga(tf)), want(tf), "filtered pga", **kw)
        elif k == 4:
            ctx.close(float(mot.calc_pgv(tf)), gen.G * 100 * want(tf / w), "filtered pgv", **kw)
            ctx.close(float(mot.calc_pgv()), pgv, "computed pgv", **kw)
        elif k == 5:
            osc = np.sort(10 ** rng.uniform(-0.3, 1.5, 3))
            z = float(rng.choice([0.05, 0.02, 0.2]))
            ctx.close(mot.calc_osc_accels(osc, z), other.calc_osc_accels(osc, z), "oscillators", **kw)
            ctx.close(mot.calc_osc_accels(osc, z, tf), other.calc_osc_accels(osc, z, tf), "filtered oscillators", **kw)
            if own:
                ctx.close(mot.calc_osc_accels(osc, z, tf), [want(tf * oscillator(f, o, z)) for o in osc], "oscillator estimates", **kw)
                ctx.close(mot.calc_osc_accels(osc), [want(oscillator(f, o, 0.05)) for o in osc], "oscillator estimates of the motion", **kw)
        elif k == 6:
            s = float(10 ** rng.uniform(-2, 2))
            ctx.close(float(mot.calc_peak(s * tf)), s * want(tf), "scaled transfer function", **kw)
            twin = gen.ps().motion.RvtMotion(f, s * a, d, name, spec["calc_kwds"] if kind == "rvt" else spec["kwds"].get("calc_kwds"))
            ctx.close(float(twin.pga), s * pga, "scaled pga", **kw)
            ctx.close(float(twin.pgv), s * pgv, "scaled pgv", **kw)
            ctx.see("scaled twins")
        else:
            ctx.close(float(mot.calc_peak(np.abs(tf))), want(tf), "phase does not matter", **kw)
    ctx.same(mot.fourier_amps, np.asarray(mot.fourier_amps), "spectrum after the queries")
    ctx.close(mot.fourier_amps, a, "spectrum after the queries", 1e-9)
    if kind == "compat" and "window_len" not in spec["kwds"]:
        z = spec["kwds"].get("osc_damping", 0.05)
        got = mot.calc_osc_accels(spec["osc_freqs"], z)
        ctx.close(got, other.calc_osc_accels(spec["osc_freqs"], z), "compatible response", 1e-8)
        ctx.see("compatible responses")
    ctx.see(f"motions: {kind}")
    ctx.nontrivial(spec)


def analysis_spec(rng, i):
    kind = ("rvt", "compat", "source")[i % 3]
    prof = gen.profile_spec(rng, n=int(rng.integers(2, 6)), max_thick=12, vs=(150, 800), nonlinear=True if i % 2 else None)
    m = motion_spec(rng, kind)
    if kind == "rvt":
        m["amps"] = m["amps"] * 10 ** rng.uniform(-2, 0) / 10
    elif kind == "source":
        if m["args"]:
            m["args"][0], m["args"][1] = float(rng.uniform(4.5, 6)), float(rng.uniform(30, 150))
        else:
            m["kwds"]["magnitude"], m["kwds"]["distance"] = float(rng.uniform(4.5, 6)), float(rng.uniform(30, 150))
    return {"profile": prof, "motion": m}


def strains(ctx, rng, i):
    """The reported strains are the estimate for the reported properties."""
    p = gen.ps().propagation
    spec = analysis_spec(rng, i)
    kind = spec["motion"]["kind"]
    loc = gen.base_loc(str(rng.choice(["outcrop", "outcrop", "within", "incoming_only"])))
    ratio = float(rng.uniform(0.4, 1))
    tol = 0.01
    ctx.case(**spec, input=loc, ratio=ratio)
    other = peer(spec["motion"])
    f, a, d = np.asarray(other.freqs), np.asarray(other.fourier_amps), float(other.duration)
    prof = gen.build_profile(spec["profile"])
    calc = p.EquivalentLinearCalculator(ratio, tol, 51, 1e9)
    calc(build(spec["motion"], rng), prof, gen.build_location(prof, loc))
    check_state(ctx, prof, label="equivalent linear, ")
    fewer = gen.build_profile(spec["profile"])
    p.EquivalentLinearCalculator(ratio, tol, 50, 1e9)(build(spec["motion"]), fewer, gen.build_location(fewer, loc))
    if any(float(a.shear_mod) != float(b.shear_mod) for a, b in zip(prof, fewer)):
        # Input within a resonant column: still moving after 50 iterations
        ctx.see("analyses without convergence")
        return
    sh = ref.SH(f, *layer_props(prof))
    where = gen.resolve(spec["profile"], loc)
    worst = 0.0
    for k, la in enumerate(prof[:-1]):
        tf = strain_tf(sh, where, loc["field"], (k, la.thickness / 2))
        peak = float(other.peak_calculator(d, f, np.abs(a * tf))[0])
        if calc_name(spec["motion"]) in ("V75", "CLH56"):
            ctx.close(peak, estimate(f, a, d, tf, calc_name(spec["motion"])), "reference calculator", 2e-3)
        gmax = la.unit_wt / gen.G * la.initial_shear_vel**2
        g0, d0 = ref.soil_state(la.soil_type, gmax, la.damping_min, ratio * peak)
        worst = max(worst, 100 * abs(float(g0) / float(la.shear_mod) - 1))
        if abs(float(d0) - float(la.damping)) > 1e-12:
            worst = max(worst, 100 * abs(float(la.damping) / float(d0) - 1))
        ctx.close(float(la.strain), ratio * peak, "effective strain", 0.05)
        ctx.close(float(la.strain_max) * ratio, float(la.strain), "maximum strain", 1e-9)
        ctx.see("strains judged")
    ctx.true(worst <= 3 * tol + 1e-6, "strain compatible", f"a further iteration changes a property by {worst} percent")
    ctx.see(f"analyses: {kind}")
    ctx.nontrivial(spec, ratio)


def scaling(ctx, rng, i):
    """Linear responses scale with the spectrum; frequency-dependent results are compatible."""
    p, o = gen.ps().propagation, gen.ps().output
    spec = analysis_spec(rng, i)
    mot = build(spec["motion"])
    ctx.case(**spec)
    name = calc_name(spec["motion"])
    kw = spec["motion"]["calc_kwds"] if spec["motion"]["kind"] == "rvt" else spec["motion"]["kwds"].get("calc_kwds")
    s = float(10 ** rng.uniform(-2, 2))
    f, a, d = np.asarray(mot.freqs), np.asarray(mot.fourier_amps), float(mot.duration)
    twin = gen.ps().motion.RvtMotion(f, s * a, d, name, kw)
    res = []
    osc = np.sort(10 ** rng.uniform(-0.3, 1.3, 3))
    for m in (mot, twin):
        prof = gen.build_profile(spec["profile"])
        calc = p.LinearElasticCalculator()
        calc(m, prof, gen.build_location(prof, gen.base_loc()))
        top = prof.location("outcrop", index=0)
        outs = [
            o.ResponseSpectrumOutput(osc, o.OutputLocation("outcrop", index=0), 0.05),
            o.FourierAmplitudeSpectrumOutput(osc, o.OutputLocation("outcrop", index=0), ko_bandwidth=30),
            o.MaxAccelProfile(),
        ]
        for out in outs:
            out(calc)
        tf = calc.calc_accel_tf(calc.loc_input, top)
        res.append((tf, m.calc_peak(tf), *[np.array(out.values) for out in outs]))
    ctx.close(res[1][0], res[0][0], "transfer function does not depend on the amplitude", 1e-12)
    for x, y, label in zip(res[0][1:], res[1][1:], ("surface peak", "response spectrum", "Fourier spectrum", "acceleration profile")):
        ctx.close(np.asarray(y), s * np.asarray(x), f"scaled {label}", 1e-8)
    ctx.see("scaled analyses")
    # Frequency dependent
    for method in ("ka02", "zr15", "ko:20"):
        if rng.random() < 0.5:
            continue
        prof = gen.build_profile(spec["profile"])
        calc = p.FrequencyDependentEqlCalculator(method, float(rng.uniform(0.5, 1)), 0.5, 15, 1e9)
        calc(build(spec["motion"]), prof, gen.build_location(prof, gen.base_loc()))
        check_state(ctx, prof[:-1], label="frequency dependent, ")
        for la in prof[:-1]:
            ctx.true(np.all(np.asarray(la.strain) >= 0) and np.all(np.isfinite(la.strain)), "finite strains")
        ctx.see(f"frequency dependent: {spec['motion']['kind']}")
    ctx.nontrivial(spec, s)


def outputs(ctx, rng, i):
    """Every output that needs no time history."""
    spec = analysis_spec(rng, i)
    m = spec["motion"]
    other = peer(m)
    m = {**m, "freqs": np.asarray(other.freqs), "amps": np.asarray(other.fourier_amps)}
    if m["kind"] == "rvt":
        m = {k: v for k, v in m.items()}
    calc = ("linear", "eql", "fdm", "eql")[int(rng.integers(4))]
    loc = gen.base_loc() if calc == "fdm" else gen.base_loc(str(rng.choice(["outcrop", "within", "incoming_only"])))
    outputs_of(ctx, rng, {"calc": calc, "profile": spec["profile"], "motion": m, "loc": loc})
    ctx.see(f"recorded from: {m['kind']}")


KINDS = ("rvt", "compat", "source")
MONITORS = [
    Monitor(
        "motions", motions, 220, 12000,
        {**{f"motions: {k}": 30 for k in KINDS}, **{f"calculator: {c}": 2 for c in PLAIN + EVENT}, "own estimates": 150, "scaled twins": 150, "compatible responses": 20},
    ),
    Monitor("strains", strains, 72, 2500, {**{f"analyses: {k}": 15 for k in KINDS}, "strains judged": 150}),
    Monitor("scaling", scaling, 30, 1500, {"scaled analyses": 25, **{f"frequency dependent: {k}": 3 for k in KINDS}}),
    Monitor("outputs", outputs, 60, 1800, {f"recorded from: {k}": 15 for k in KINDS}),
]
