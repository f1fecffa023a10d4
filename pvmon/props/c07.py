"""Random profiles of linear soils run through every calculator (identical results
required), nonlinear profiles shaken by vanishing motions (results must approach the
linear one as the amplitude falls), and linear analyses under scaled motions.
Non-trivial: a multi-layer profile whose calculators all completed."""
import numpy as np

from .. import gen
from ..core import Monitor
from ..eqlwork import eql_case
from ..wavework import warm  # noqa: F401


def calcs(rng):
    p = gen.ps().propagation
    ratio = float(rng.uniform(0.3, 1))
    it = int(rng.integers(1, 20))
    return {
        "EQL": p.EquivalentLinearCalculator(ratio, 0.01, it, 0.0),
        "FDM-ka02": p.FrequencyDependentEqlCalculator("ka02", ratio, 0.01, it, 0.0),
        "FDM-zr15": p.FrequencyDependentEqlCalculator("zr15", ratio, 0.01, it, 0.0),
        "FDM-ko": p.FrequencyDependentEqlCalculator("ko:30", ratio, 0.01, it, 0.0),
    }


def results(calc, prof, lin, locs):
    out = {}
    for j, lo in enumerate(locs):
        lo = gen.build_location(prof, lo)
        out[f"accel {j}"] = calc.calc_accel_tf(lin, lo)
        wi = gen.ps().site.Location(lo.index, lo.layer, "within", lo.depth_within)
        out[f"strain {j}"] = calc.calc_strain_tf(lin, wi)
        out[f"stress {j}"] = calc.calc_stress_tf(lin, wi, damped=True)
    return out


def linear_soils(ctx, rng, i):
    p = gen.ps().propagation
    spec, m, loc = eql_case(rng, nonlinear=False)
    if m["kind"] == "ts" and i % 2:
        m = gen.ts_spec(rng, n=256, kind="noise")
    locs = [gen.location_spec(rng, spec) for _ in range(3)]
    ctx.case(profile=spec, motion=m, input=loc)
    le = p.LinearElasticCalculator()
    prof = gen.build_profile(spec)
    lin = gen.build_location(prof, loc)
    le(gen.build_motion(m), prof, lin)
    want = results(le, prof, lin, locs)
    for name, calc in calcs(rng).items():
        pr = gen.build_profile(spec)
        li = gen.build_location(pr, loc)
        calc(gen.build_motion(m), pr, li)
        got = results(calc, pr, li, locs)
        for k in want:
            ctx.close(got[k], want[k], f"{name}: linear profile, {k.split()[0]}", 1e-10, 1e-300)
        for a, b in zip(pr, prof):
            ctx.close(a.shear_mod * np.ones(1), b.shear_mod * np.ones(1), f"{name}: linear modulus", 1e-12)
            ctx.close(a.damping * np.ones(1), b.damping * np.ones(1), f"{name}: linear damping", 1e-12)
        ctx.see("calculators compared with linear")
    if len(spec["layers"]) > 2:
        ctx.nontrivial(spec, m)


def vanishing(ctx, rng, i):
    p = gen.ps().propagation
    spec, m, loc = eql_case(rng, nonlinear=True, rvt=False)
    # Curves that start at one, so that small strain means small-strain modulus
    for s in spec["soils"]:
        if s["kind"] != "linear":
            st, v = gen.curve_points(rng, "mod_reduc")
            sd, d = gen.curve_points(rng, "damping")
            name = s["name"]
            s.clear()
            s.update(kind="curves", name=name, unit_wt=20.0, mr=(st, v / v[0]), d=(sd, d))
    n = 256
    m = {**gen.ts_spec(rng, n=n, kind="noise", pga=1.0)}
    locs = [gen.location_spec(rng, spec, "within") for _ in range(2)]
    ctx.case(profile=spec, motion=m, input=loc)
    le = p.LinearElasticCalculator()
    prof = gen.build_profile(spec)
    lin = gen.build_location(prof, loc)
    le(gen.build_motion(m), prof, lin)
    want = results(le, prof, lin, locs)
    for name, calc in calcs(rng).items():
        for pga in (1e-7, 1e-10):
            small = {**m, "accels": m["accels"] * pga}
            pr = gen.build_profile(spec)
            li = gen.build_location(pr, loc)
            calc(gen.build_motion(small), pr, li)
        # Strains are now below the first points of all curves
        ctx.true(max(np.max(la.strain) for la in pr[:-1]) < 1e-6, f"{name}: strains of a vanishing motion")
        got = results(calc, pr, li, locs)
        for k in want:
            ctx.close(got[k], want[k], f"{name}: vanishing motion, {k.split()[0]}", 1e-8, 1e-8 * np.abs(want[k]).max())
        ctx.see("vanishing motions")
    ctx.nontrivial(spec, m)


def scaling(ctx, rng, i):
    p = gen.ps().propagation
    spec, m, loc = eql_case(rng)
    locs = [gen.location_spec(rng, spec) for _ in range(3)]
    f = float(10 ** rng.uniform(-4, 4))
    ctx.case(profile=spec, motion=m, input=loc, factor=f)
    m2 = dict(m)
    m2["accels" if m["kind"] == "ts" else "amps"] = m["accels" if m["kind"] == "ts" else "amps"] * f
    out = []
    for mm in (m, m2):
        le = p.LinearElasticCalculator()
        prof = gen.build_profile(spec)
        lin = gen.build_location(prof, loc)
        mot = gen.build_motion(mm)
        le(mot, prof, lin)
        r = results(le, prof, lin, locs)
        peaks = {k: mot.calc_peak(v) for k, v in r.items()}
        out.append((r, peaks, mot))
    for k in out[0][0]:
        if not np.any(out[0][0][k]):
            # The random-vibration peak of nothing is undefined
            continue
        ctx.near(out[1][0][k], out[0][0][k], "linear transfer function depends on the amplitude")
        ctx.close(out[1][1][k], f * out[0][1][k], "linear response is not proportional", 1e-8)
        ctx.see("scaled responses")
    if m["kind"] == "ts":
        ctx.close(out[1][2].pga, f * out[0][2].pga, "pga is not proportional", 1e-9)
    ctx.nontrivial(spec, m, f)


MONITORS = [
    Monitor("linear_soils", linear_soils, 150, 5000, {"calculators compared with linear": 500}),
    Monitor("vanishing", vanishing, 120, 4000, {"vanishing motions": 200}),
    Monitor("scaling", scaling, 150, 5000, {"scaled responses": 800}),
]
