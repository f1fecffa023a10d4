"""Random nonlinear profiles (shared soils, mixed linear layers, nonlinear
half-spaces, several wave fields of input) with time-series and random-vibration
motions from weak to strong, random effective-strain ratios, strain limits and
iteration caps. After each analysis the reported strains, moduli and dampings are
recomputed from the reported transfer functions, the raw record and the points of the
soil curves; the transfer functions are compared with the exact solution for the
properties of the previous iteration (obtained by stopping one iteration earlier).
Non-trivial: at least one nonlinear layer strained beyond its curve's first point."""
import numpy as np

from .. import gen, ref
from ..core import Monitor
from ..eqlwork import check_state, eql_case, layer_props, motion_parts
from ..wavework import check_tfs, warm  # noqa: F401


def make_calc(rng):
    p = gen.ps().propagation
    kw = {}
    if rng.random() < 0.7:
        kw["strain_ratio"] = float(rng.uniform(0.3, 1.4))
    if rng.random() < 0.7:
        kw["tolerance"] = float(rng.choice([0.0, 1e-4, 0.01, 0.1, 1.0, 5.0]))
    if rng.random() < 0.7:
        kw["max_iterations"] = int(rng.integers(1, 25))
    if rng.random() < 0.6:
        kw["strain_limit"] = rng.choice([0.0, 0.001, 0.01, 0.3])
        kw["strain_limit"] = float(kw["strain_limit"])
    return p.EquivalentLinearCalculator(**kw), {
        "strain_ratio": 0.65, "tolerance": 0.01, "max_iterations": 15, "strain_limit": 0.05, **kw}


def compatible(ctx, rng, i):
    site = gen.ps().site
    spec, m, loc = eql_case(rng, max_thick=float(rng.choice([10, 10, 100])))
    prof = gen.build_profile(spec)
    mot = gen.build_motion(m)
    calc, opt = make_calc(rng)
    ctx.case(profile=spec, motion=m, input=loc, options=opt)
    for k, v in opt.items():
        ctx.equal(getattr(calc, k), v, f"reported option {k}")
    lin = gen.build_location(prof, loc)
    freqs, fas, peak = motion_parts(m, mot)
    ctx.close(np.asarray(mot.freqs), freqs, "frequencies of the motion", 1e-12)
    try:
        calc(mot, prof, lin)
    except RuntimeError as e:
        ctx.true("train" in str(e) and bool(opt["strain_limit"]), "unexpected refusal", str(e))
        ctx.see("strain limit exceeded")
        return
    moved = False
    for k, la in enumerate(prof[:-1]):
        mid = site.Location(k, la, "within", la.thickness / 2)
        pk = peak(calc.calc_strain_tf(lin, mid))
        eff = opt["strain_ratio"] * pk
        if opt["strain_limit"]:
            if eff > opt["strain_limit"]:
                ctx.see("limited strains")
            eff = min(eff, opt["strain_limit"])
        ctx.close(la.strain, eff, "effective strain", 1e-9, layer=k)
        ctx.close(la.strain_max, pk, "maximum strain", 1e-9, layer=k)
        ctx.close(la.stress_shear_eff, la.shear_mod * eff, "effective stress", 1e-9)
        ctx.close(la.stress_shear_max, la.shear_mod * pk, "maximum stress", 1e-9)
        ctx.see("layer strains")
        pts = getattr(la.soil_type.mod_reduc, "strains", None)
        moved |= pts is not None and la.strain > pts[0]
    check_state(ctx, prof)
    ctx.close(prof[-1].strain, mot.pgv / 100 / spec["layers"][-1]["vs"], "strain of the half-space", 1e-9)
    ctx.true(all(np.ndim(la.shear_mod) == 0 for la in prof), "one property per layer")
    if moved:
        ctx.nontrivial(spec, m, opt)


def trajectory(ctx, rng, i):
    """Transfer functions come from the previous iteration's properties."""
    p = gen.ps().propagation
    spec, m, loc = eql_case(rng, pga=10 ** rng.uniform(-2.5, -0.7))
    ratio = float(rng.uniform(0.4, 1))
    mot = gen.build_motion(m)
    freqs, fas, peak = motion_parts(m, mot)
    top = int(rng.integers(2, 6))
    ctx.case(profile=spec, motion=m, input=loc, ratio=ratio, iterations=top)
    runs = []
    for cap in (top - 1, top):
        prof = gen.build_profile(spec)
        calc = p.EquivalentLinearCalculator(ratio, 0.0, cap, 0.0)
        lin = gen.build_location(prof, loc)
        calc(mot, prof, lin)
        runs.append((calc, prof, lin))
    props = layer_props(runs[0][1])
    calc, prof, lin = runs[1]
    sh = ref.SH(freqs, *props)
    where_in = gen.resolve(spec, loc)
    for _ in range(3):
        a, b = gen.location_spec(rng, spec), gen.location_spec(rng, spec, "within")
        num = sh.field(gen.resolve(spec, b), "within")
        ref.check_ratio(
            ctx, calc.calc_accel_tf(lin, gen.build_location(prof, b)), num, sh.field(where_in, loc["field"]),
            2 * sh.scale(gen.resolve(spec, b)), 2 * sh.scale(where_in),
            "transfer function of the iteration that produced the strains", 1e-7, out=b,
        )
        ctx.see("transfer functions")
    ctx.nontrivial(spec, m, ratio, top)


def resumed(ctx, rng, i):
    """Continuing from known properties performs exactly the iterations asked."""
    p = gen.ps().propagation
    site = gen.ps().site
    spec, m, loc = eql_case(rng, nonlinear=True, pga=10 ** rng.uniform(-2.5, -0.7))
    ratio = float(rng.uniform(0.4, 1))
    mot = gen.build_motion(m)
    freqs, fas, peak = motion_parts(m, mot)
    prof, twin = gen.build_profile(spec), gen.build_profile(spec)
    strains = 10.0 ** rng.uniform(-5.5, -2.5, len(prof))
    for pr in (prof, twin):
        for la, s in zip(pr, strains):
            la.strain = float(s)
    ctx.case(profile=spec, motion=m, input=loc, ratio=ratio, strains=strains)
    props = layer_props(prof)
    one = p.EquivalentLinearCalculator(ratio, 0.0, 1, 0.0)
    lin = gen.build_location(prof, loc)
    one(mot, prof, lin, reset_layers=False)
    sh = ref.SH(freqs, *props)
    check_tfs(
        ctx, one, sh, {"lin": loc}, lin, prof.location("within", index=0),
        gen.resolve(spec, loc), (0, 0.0), tag="after one iteration: ",
    )
    for k, la in enumerate(prof[:-1]):
        mid = site.Location(k, la, "within", la.thickness / 2)
        pk = peak(one.calc_strain_tf(lin, mid))
        ctx.close(la.strain, ratio * pk, "effective strain after one iteration", 1e-9)
    check_state(ctx, prof, prof[:-1])
    n = int(rng.integers(1, 4))
    for _ in range(n):
        one(mot, prof, lin, reset_layers=False)
    many = p.EquivalentLinearCalculator(ratio, 0.0, n + 1, 0.0)
    many(mot, twin, gen.build_location(twin, loc), reset_layers=False)
    for a, b in zip(prof, twin):
        ctx.close(b.shear_mod, a.shear_mod, "n+1 iterations equal n+1 single iterations", 1e-9)
        ctx.close(b.damping, a.damping, "n+1 iterations equal n+1 single iterations", 1e-9)
    # Another motion, weaker or stronger, from the state left by this one
    m2 = gen.ts_spec(rng, n=200, pga=10 ** rng.uniform(-3.5, -0.7))
    other = gen.build_motion(m2)
    f2, _, peak2 = motion_parts(m2, other)
    sh = ref.SH(f2, *layer_props(prof))
    where = gen.resolve(spec, loc)
    one(other, prof, lin, reset_layers=False)
    for k, la in enumerate(prof[:-1]):
        pk = peak2(one.calc_strain_tf(lin, site.Location(k, la, "within", la.thickness / 2)))
        ctx.close(la.strain, ratio * pk, "effective strain of the next motion", 1e-9)
        ctx.close(la.strain_max, pk, "maximum strain of the next motion", 1e-9)
        ctx.close(la.stress_shear_max, la.shear_mod * pk, "maximum stress of the next motion", 1e-9)
    check_tfs(
        ctx, one, sh, {"lin": loc}, lin, prof.location("within", index=0),
        where, (0, 0.0), tag="next motion: ",
    )
    check_state(ctx, prof, prof[:-1], "next motion: ")
    ctx.see("resumed analyses")
    ctx.nontrivial(spec, m, ratio, n)


def ratio_rule(ctx, rng, i):
    p = gen.ps().propagation
    mag = float(rng.uniform(4, 8.5))
    ctx.case(mag=mag)
    ctx.close(p.EquivalentLinearCalculator.calc_strain_ratio(mag), (mag - 1) / 10, "Idriss and Sun strain ratio", 1e-12)


def limited(ctx, rng, i):
    """Strains held at the limit in the last iteration only."""
    p, site = gen.ps().propagation, gen.ps().site
    spec, m, loc = eql_case(rng, nonlinear=True, pga=10 ** rng.uniform(-2.5, -0.5))
    ratio = float(rng.uniform(0.3, 1.0))
    cap = int(rng.integers(1, 5))
    mot = gen.build_motion(m)
    tops = []
    for c in range(1, cap + 1):
        prof = gen.build_profile(spec)
        p.EquivalentLinearCalculator(ratio, 0.0, c, 0.0)(mot, prof, gen.build_location(prof, loc))
        tops.append(max(float(la.strain) for la in prof[:-1]))
    # Never limited before the last iteration
    last = max(tops[:-1], default=0.0)
    if last < tops[-1] * 0.999:
        limit = float(rng.uniform(last, tops[-1])) if last else tops[-1] * float(rng.uniform(0.05, 0.95))
    elif cap > 1 and max(tops[:-2], default=0.0) < last * 0.999 and tops[-1] < last * 0.999:
        # Limited in the iteration before the last only
        limit = float(rng.uniform(max(tops[-1], max(tops[:-2], default=0.0)), last))
    else:
        return
    prof = gen.build_profile(spec)
    lin = gen.build_location(prof, loc)
    calc = p.EquivalentLinearCalculator(ratio, 0.0, cap, limit)
    ctx.case(profile=spec, motion=m, input=loc, ratio=ratio, cap=cap, limit=limit, tops=tops)
    freqs, fas, peak = motion_parts(m, mot)
    try:
        calc(mot, prof, lin)
    except RuntimeError as e:
        # Strains that were limited before may stay above the limit
        ctx.true("train" in str(e) and len(tops) > 1 and last > limit, "refused though limited once only", str(e))
        ctx.see("limited twice")
        return
    held = 0
    for k, la in enumerate(prof[:-1]):
        mid = site.Location(k, la, "within", la.thickness / 2)
        pk = peak(calc.calc_strain_tf(lin, mid))
        held += ratio * pk > limit
        ctx.close(la.strain, min(ratio * pk, limit), "limited effective strain", 1e-9, layer=k)
        ctx.close(la.strain_max, pk, "maximum strain of a limited layer", 1e-9, layer=k)
        ctx.close(la.stress_shear_max, la.shear_mod * pk, "maximum stress of a limited layer", 1e-9)
    check_state(ctx, prof)
    ctx.see("held layers", held)
    ctx.see("layers beside held layers", len(prof) - 1 - held)
    ctx.nontrivial(spec, m, ratio, cap)


MONITORS = [
    Monitor("limited", limited, 90, 3000, {"held layers": 25, "layers beside held layers": 20}),
    Monitor("compatible", compatible, 600, 10000, {"layer strains": 400, "layer states": 500}),
    Monitor("trajectory", trajectory, 240, 3000, {"transfer functions": 200}),
    Monitor("resumed", resumed, 150, 3000, {"resumed analyses": 60}),
    Monitor("ratio", ratio_rule, 12, 50),
]
