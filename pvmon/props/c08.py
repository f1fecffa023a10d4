"""Random nonlinear profiles analysed with the three frequency-dependent methods.
After each analysis every layer's strain spectrum is recomputed from the reported
strain transfer function and the motion with an independent implementation of the
documented shape; modulus and damping per frequency come from the points of the
soil's curves; transfer functions are compared with the exact solution for the
per-frequency properties of the previous iteration. Non-trivial: a nonlinear layer
whose modulus varies with frequency."""
import numpy as np
import pykooh

from .. import gen, ref
from ..core import Monitor
from ..eqlwork import check_state, eql_case, layer_props, motion_parts
from ..wavework import check_tfs, warm  # noqa: F401

ASSUMPTIONS = ["pykooh's Konno-Omachi smoothing is taken as correct"]
METHODS = ("ka02", "zr15", "ko:20", "ko:40")


def trapz(y, x):
    return float(np.sum((y[1:] + y[:-1]) * np.diff(x)) / 2)


def shape(method, freqs, fas):
    """Normalised strain spectrum documented for the method."""
    if method == "zr15":
        return fas / fas.max()
    if method.startswith("ko:"):
        sm = pykooh.smooth(freqs, freqs, fas, float(method[3:]), normalize=True)
        sm = np.asarray(sm) / np.max(sm)
        out = np.empty_like(sm)
        run = -np.inf
        for j in range(sm.size - 1, -1, -1):
            run = max(run, sm[j])
            out[j] = run
        return out
    avg = trapz(freqs * fas, freqs) / trapz(fas, freqs)
    low = freqs < avg
    s_avg = trapz(fas[low], freqs[low]) / avg
    x, y = freqs / avg, fas / s_avg
    xs, ys = x[~low], np.log(y[~low])
    # least squares of ln y = -a x - b ln x
    m = np.array([[np.sum(xs * xs), np.sum(xs * np.log(xs))], [np.sum(xs * np.log(xs)), np.sum(np.log(xs) ** 2)]])
    r = -np.array([np.sum(xs * ys), np.sum(np.log(xs) * ys)])
    a, b = np.linalg.solve(m, r)
    with np.errstate(all="ignore"):
        s = np.exp(-a * x) / np.maximum(np.finfo(float).eps, x**b)
    return np.minimum(1, s)


def case(rng, i):
    spec, m, loc = eql_case(rng, n=int(rng.integers(1, 5)), nonlinear=None if i % 3 else True)
    if m["kind"] == "ts":
        # A spectrum without zeros: the shapes take its logarithm
        n = int(rng.choice([256, 256, 256, 256, 256, 256, 256, 256, 200, 1100]))
        m = gen.ts_spec(rng, n=n, pga=10 ** rng.uniform(-3, -0.7), kind="noise", dt=0.02)
    elif i % 5 == 0:
        # Largest strains at the lowest frequency
        m["amps"] = m["amps"].max() * (m["freqs"][0] / m["freqs"]) ** rng.uniform(1, 3)
    if loc["field"] != "outcrop":
        loc = gen.base_loc()
    method = METHODS[i % 4]
    if method == "ko:40" and rng.random() < 0.6:
        method = f"ko:{10 ** rng.uniform(0.3, 2):.3g}"
    return spec, m, loc, method


def spectra(ctx, rng, i):
    p, site = gen.ps().propagation, gen.ps().site
    spec, m, loc, method = case(rng, i)
    ratio = float(rng.uniform(0.4, 1.0))
    cap = int(rng.integers(1, 20))
    limit = float(rng.choice([0.0, 0.05]))
    tol = float(rng.choice([0.0, 0.01, 1.0]))
    ctx.case(profile=spec, motion=m, method=method, ratio=ratio, cap=cap, limit=limit)
    prof, mot = gen.build_profile(spec), gen.build_motion(m)
    calc = p.FrequencyDependentEqlCalculator(method, ratio, tol, cap, limit)
    ctx.equal(calc.name, "FDM-" + method, "name")
    lin = gen.build_location(prof, loc)
    freqs, fas, peak = motion_parts(m, mot)
    try:
        calc(mot, prof, lin)
    except RuntimeError as e:
        ctx.true("train" in str(e) and limit, "unexpected refusal", str(e))
        ctx.see("strain limit exceeded")
        return
    varied = False
    for k, la in enumerate(prof[:-1]):
        tf = calc.calc_strain_tf(lin, site.Location(k, la, "within", la.thickness / 2))
        pk = peak(tf)
        eff = ratio * pk
        s = eff * shape(method, freqs, np.abs(tf * fas))
        if limit:
            s = np.minimum(s, limit)
        got = np.asarray(la.strain)
        ctx.true(got.shape == freqs.shape, f"{method}: one strain per frequency")
        ctx.close(got, s, f"{method}: strain spectrum", 1e-5 if method == "ka02" else 1e-7, 1e-7 * eff, layer=k)
        ctx.true(np.all(got <= eff * (1 + 1e-9)), f"{method}: strain above the effective strain")
        ctx.close(np.asarray(la.strain_max), pk, f"{method}: maximum strain", 1e-9)
        ctx.see("strain spectra")
        varied |= np.ptp(np.asarray(la.shear_mod)) > 0
    check_state(ctx, prof, prof[:-1], f"{method}: ")
    base = prof[-1]
    ctx.true(np.all(np.isfinite(base.shear_mod)) and np.all(np.isfinite(base.damping)), f"{method}: half-space finite")
    if varied:
        ctx.nontrivial(spec, m, method)


def per_frequency(ctx, rng, i):
    """Transfer functions use each frequency's own properties."""
    p = gen.ps().propagation
    spec, m, loc, method = case(rng, i)
    ratio = float(rng.uniform(0.4, 1.0))
    top = int(rng.integers(2, 5))
    ctx.case(profile=spec, motion=m, method=method, ratio=ratio, iterations=top)
    mot = gen.build_motion(m)
    freqs, fas, peak = motion_parts(m, mot)
    runs = []
    for cap in (top - 1, top):
        prof = gen.build_profile(spec)
        calc = p.FrequencyDependentEqlCalculator(method, ratio, 0.0, cap, 0.0)
        lin = gen.build_location(prof, loc)
        calc(mot, prof, lin)
        runs.append((calc, prof, lin))
    thick, vs, rho, damp = layer_props(runs[0][1])
    # The exact solution frequency by frequency
    calc, prof, lin = runs[1]
    wi = gen.resolve(spec, loc)
    for _ in range(2):
        b = gen.location_spec(rng, spec, "within")
        lo = gen.build_location(prof, b)
        got = calc.calc_accel_tf(lin, lo)
        got_s = calc.calc_strain_tf(lin, lo)
        for j in sorted({int(x) for x in rng.integers(1, freqs.size, 6)}):
            one = [[np.atleast_1d(np.broadcast_to(v, freqs.shape)[j])[0] for v in q] for q in (vs, damp)]
            sh = ref.SH([freqs[j]], thick, one[0], rho, one[1])
            wo = gen.resolve(spec, b)
            ref.check_ratio(
                ctx, got[j : j + 1], sh.field(wo, "within"), sh.field(wi, loc["field"]), 2 * sh.scale(wo),
                2 * sh.scale(wi), f"{method}: acceleration transfer function", 1e-7, frequency=freqs[j],
            )
            ref.check_ratio(
                ctx, got_s[j : j + 1], gen.G * sh.strain(wo), -(sh.w**2) * sh.field(wi, loc["field"]),
                gen.G * sh.strain_scale(wo), sh.w**2 * 2 * sh.scale(wi),
                f"{method}: strain transfer function", 1e-7, frequency=freqs[j],
            )
            ctx.see("frequencies compared")
    ctx.nontrivial(spec, m, method, top)


def resumed(ctx, rng, i):
    """One iteration from imposed per-frequency strains."""
    p = gen.ps().propagation
    spec, m, loc, method = case(rng, i)
    mot = gen.build_motion(m)
    freqs = motion_parts(m, mot)[0]
    prof = gen.build_profile(spec)
    for la in prof:
        la.strain = 10.0 ** rng.uniform(-5, -2.7) * np.exp(-freqs / rng.uniform(5, 30))
    ctx.case(profile=spec, motion=m, method=method)
    props = layer_props(prof)
    calc = p.FrequencyDependentEqlCalculator(method, 0.65, 0.0, 1, 0.0)
    lin = gen.build_location(prof, loc)
    calc(mot, prof, lin, reset_layers=False)
    sh = ref.SH(freqs, *props)
    b = gen.location_spec(rng, spec, "within")
    lo = gen.build_location(prof, b)
    # Stress uses the updated modulus: only the motion and strain belong to the wave field
    wo, wi = gen.resolve(spec, b), gen.resolve(spec, loc)
    ref.check_ratio(
        ctx, calc.calc_accel_tf(lin, lo), sh.field(wo, "within"), sh.field(wi, loc["field"]),
        2 * sh.scale(wo), 2 * sh.scale(wi), f"{method}: first iteration from imposed strains", 1e-7,
    )
    check_state(ctx, prof, prof[:-1], f"{method}: ")
    ctx.see("imposed strain spectra")
    ctx.nontrivial(spec, m, method)


MONITORS = [
    Monitor("spectra", spectra, 160, 5000, {"strain spectra": 250}),
    Monitor("per_frequency", per_frequency, 80, 2500, {"frequencies compared": 500}),
    Monitor("resumed", resumed, 80, 2500, {"imposed strain spectra": 40}),
]
__all__ = ["check_tfs"]
