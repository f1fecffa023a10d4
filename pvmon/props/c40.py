"""Profiles whose soils have one damping curve per frequency (Darendeli soils at the
motion's frequencies, curves with a column per frequency, possibly for the modulus as
well) mixed with ordinary soils, layers with their own minimum damping, scalar and
per-frequency strains, and linear, equivalent-linear and frequency-dependent analyses.
Every frequency is compared with the ordinary soil of that frequency: curves, layer
states, the exact wave solution for each frequency's own damping (in the iteration that
produced the strains), copies and discretizations; soils whose columns are all alike
must give the results of the ordinary soil. Non-trivial: an analysis in which the
damping differs between frequencies."""
import numpy as np

from .. import gen, ref
from ..core import Monitor
from ..eqlwork import motion_parts, strain_tf
from ..wavework import check_tfs, warm  # noqa: F401
from .c08 import shape

ASSUMPTIONS = ["excitation frequencies of the Darendeli soils are those of the motion and above 0.05 Hz"]
LIMITS = {"mod_reduc": (0.001, 1.0), "damping": (0.0, 0.49)}


def motion_spec(rng, ts=None):
    if ts or (ts is None and rng.random() < 0.5):
        return gen.ts_spec(rng, n=int(rng.choice([128, 200, 256])), dt=0.02, pga=10 ** rng.uniform(-3, -0.8), kind="noise")
    return gen.rvt_spec(rng, n=int(rng.integers(40, 80)), scale=10 ** rng.uniform(-3, -1.5))


def spread(rng, n):
    """A smooth factor per frequency."""
    x = np.linspace(0, 1, n)
    return np.exp(rng.uniform(-0.5, 0.5) + rng.uniform(-0.8, 0.8) * x + 0.2 * np.sin(7 * x + rng.uniform(0, 6)))


def soil_spec(rng, freqs, k, alike=False):
    """A soil with a column per frequency."""
    n = len(freqs)
    out = {"name": f"per frequency {k}", "unit_wt": round(float(rng.uniform(15, 22)), 2)}
    if freqs[0] > 0.05 and rng.random() < 0.5 and not alike:
        return {**out, "kind": "darendeli", "plas_index": float(rng.choice([0, 20, 50])), "ocr": float(rng.choice([1, 3])), "stress_mean": float(rng.uniform(30, 500))}
    s, mr = gen.curve_points(rng, "mod_reduc")
    if rng.random() < 0.3:
        s = s * 10 ** rng.uniform(-2, 0)
    _, d = gen.curve_points(rng, "damping", len(s))
    d = np.sort(d)
    f = np.full(n, 1.0) if alike else spread(rng, n)
    out.update(kind="columns", strains=s, damping=np.minimum(d[:, None] * f, 0.45), mr=mr)
    if not alike and rng.random() < 0.25:
        out["mr"] = np.minimum(mr[:, None] ** spread(rng, n), 1.0)
    return out


def build(spec, freqs, j=None):
    """The soil, or the ordinary soil of one frequency."""
    site = gen.ps().site
    if spec["kind"] == "darendeli":
        return site.DarendeliSoilType(
            spec["unit_wt"], spec["name"], spec["plas_index"], spec["ocr"], spec["stress_mean"], freq=freqs if j is None else float(freqs[j])
        )
    pick = (lambda a: a) if j is None else (lambda a: a[:, j] if a.ndim == 2 else a)
    return site.SoilType(
        spec["name"], spec["unit_wt"],
        site.ModulusReductionCurve("m", spec["strains"], pick(spec["mr"])),
        site.DampingCurve("d", spec["strains"], pick(spec["damping"])),
    )


def case(rng, ts=None, alike=False):
    m = motion_spec(rng, ts)
    freqs = np.asarray(gen.build_motion(m).freqs)
    n = int(rng.integers(1, 5))
    soils, layers = [], []
    for k in range(n):
        if k and rng.random() < 0.3:
            spec = gen.soil_spec(rng, None if rng.random() < 0.5 else False, k)
            soils.append({"kind": "plain", "spec": spec})
        else:
            soils.append(soil_spec(rng, freqs, k, alike))
        layers.append({"thickness": float(rng.integers(8, 80)) / 8, "vs": float(rng.uniform(130, 600)),
                       "dmin": float(rng.uniform(0.003, 0.05)) if rng.random() < 0.3 else None})
    base = {"vs": float(rng.uniform(700, 1600)), "damping": float(rng.choice([0.0, 0.01, 0.03]))}
    return {"motion": m, "freqs": freqs, "soils": soils, "layers": layers, "base": base}


def profile(spec, j=None, soils=None):
    """The profile, or the ordinary profile of one frequency."""
    site = gen.ps().site
    soils = soils or [gen.build_soil(s["spec"]) if s["kind"] == "plain" else build(s, spec["freqs"], j) for s in spec["soils"]]
    las = [site.Layer(s, la["thickness"], la["vs"], la["dmin"]) for s, la in zip(soils, spec["layers"])]
    rock = site.SoilType("rock", 23.0, None, spec["base"]["damping"])
    return site.Profile(las + [site.Layer(rock, 0, spec["base"]["vs"])], 3.0)


def per_freq(x, n, j):
    x = np.asarray(x, float)
    return float(x) if x.ndim == 0 else float(np.broadcast_to(x, n)[j])


def sample(rng, n, k=6):
    return sorted({0, n - 1, *(int(v) for v in rng.integers(0, n, k))})


def some_freqs(rng):
    """Frequencies far apart, or close to each other."""
    k = int(rng.integers(2, 12))
    if rng.random() < 0.25:
        return float(10 ** rng.uniform(-0.5, 1)) * (1 + 10 ** rng.uniform(-7, -0.5) * np.sort(rng.random(k)))
    return np.sort(10 ** rng.uniform(-1, 1.5, k))


def per_frequency(rng, n):
    """Strains that differ widely, or little, between the frequencies."""
    if rng.random() < 0.3:
        return 10 ** rng.uniform(-6, -1) * (1 + 10 ** rng.uniform(-6, -0.7) * rng.random(n))
    return 10 ** rng.uniform(-6, -1, n)


def curves(ctx, rng, i):
    """A curve at one strain, or at one strain per frequency."""
    freqs = some_freqs(rng)
    spec = soil_spec(rng, freqs, 0)
    soil = build(spec, freqs)
    n = freqs.size
    ctx.case(soil=spec, freqs=freqs)
    each = [build(spec, freqs, j) for j in range(n)]
    for param in ("mod_reduc", "damping"):
        c = getattr(soil, param)
        if c.values.ndim != 2:
            ctx.close(c.values, getattr(each[-1], param).values, f"{param}: same for all frequencies", 1e-12)
            continue
        ctx.equal(c.values.shape, (c.strains.size, n), f"{param}: one column per frequency")
        for j in range(n):
            ctx.close(c.values[:, j], getattr(each[j], param).values, f"{param}: column of a frequency", 1e-12)
        inside = float(np.sqrt(c.strains[0] * c.strains[-1]))
        for s in (0.0, 1e-9, float(c.strains[0]), inside, float(10 ** rng.uniform(-6, -1)), 1.0):
            want = [ref.curve(c.strains, c.values[:, j], s, LIMITS[param]) for j in range(n)]
            for given in (s, np.float64(s), np.array([s]), np.full(n, s)):
                ctx.close(c(given), want, f"{param}: one strain", 1e-9, 1e-12)
        for _ in range(3):
            s = per_frequency(rng, n)
            want = [ref.curve(c.strains, c.values[:, j], s[j], LIMITS[param]) for j in range(n)]
            ctx.close(c(s), want, f"{param}: strains per frequency", 1e-9, 1e-12)
            ctx.close(c(list(s)), want, f"{param}: strains per frequency, list", 1e-9, 1e-12)
            ctx.see("strains per frequency")
        if rng.random() < 0.5:
            c.values = c.values * 0.8
            s = 10 ** rng.uniform(-5, -2, n)
            ctx.close(c(s), [ref.curve(c.strains, c.values[:, j], s[j], LIMITS[param]) for j in range(n)], f"{param}: updated values", 1e-9, 1e-12)
            c.strains = c.strains * 1.7
            ctx.close(c(s), [ref.curve(c.strains, c.values[:, j], s[j], LIMITS[param]) for j in range(n)], f"{param}: updated strains", 1e-9, 1e-12)
    ctx.nontrivial(spec, freqs)


def states(ctx, rng, i):
    """A layer at one strain, or one strain per frequency."""
    freqs = some_freqs(rng)
    spec = soil_spec(rng, freqs, 0)
    site, n = gen.ps().site, freqs.size
    own = float(rng.uniform(0.0, 0.05)) if rng.random() < 0.5 else None
    la = site.Layer(build(spec, freqs), 3.0, 250.0, own)
    each = [site.Layer(build(spec, freqs, j), 3.0, 250.0, own) for j in range(n)]
    ctx.case(soil=spec, freqs=freqs, dmin=own)

    def judge(label):
        for name in ("shear_mod", "damping", "shear_vel", "shear_mod_reduc", "comp_shear_mod", "comp_shear_vel", "damping_min", "stress_shear_eff"):
            got = np.broadcast_to(np.asarray(getattr(la, name)), n)
            ctx.close(got, np.array([np.asarray(getattr(e, name)) for e in each]).reshape(n), f"{label}: {name}", 1e-9, 1e-13)
        ctx.see("layer states")

    judge("as built")
    for _ in range(int(rng.integers(3, 8))):
        u = rng.random()
        if u < 0.35:
            s = float(10 ** rng.uniform(-6, -1))
            la.strain = s
            for e in each:
                e.strain = s
            label = "one strain"
        elif u < 0.75:
            s = per_frequency(rng, n)
            la.strain = s
            for e, v in zip(each, s):
                e.strain = float(v)
            label = "strains per frequency"
        elif u < 0.85:
            la.reset()
            for e in each:
                e.reset()
            label = "reset"
        else:
            d = float(rng.uniform(0, 0.05))
            for e in (la, *each):
                e.damping_min = d
            label = "minimum damping changed"
        judge(label)
    ctx.nontrivial(spec, freqs)


def expected_damping(spec, strains=None):
    """Modulus reduction and damping of each layer (layers, frequencies)."""
    n = spec["freqs"].size
    g, d = [], []
    for k, (s, la) in enumerate(zip(spec["soils"], spec["layers"])):
        st = gen.build_soil(s["spec"]) if s["kind"] == "plain" else build(s, spec["freqs"])
        mr, dc = st.mod_reduc, st.damping
        col = lambda c, j: c.values[:, j] if c.values.ndim == 2 else c.values
        gj, dj = np.ones(n), np.empty(n)
        for j in range(n):
            x = None if strains is None else per_freq(strains[k], n, j)
            base = float(col(dc, j)[0]) if hasattr(dc, "values") else float(dc)
            dmin = base if la["dmin"] is None else la["dmin"]
            if x is None:
                dj[j] = dmin
                continue
            if hasattr(mr, "values"):
                gj[j] = ref.curve(mr.strains, col(mr, j), x, LIMITS["mod_reduc"])
            dj[j] = dmin + (float(ref.curve(dc.strains, col(dc, j), x, LIMITS["damping"])) - base if hasattr(dc, "values") else 0.0)
        g.append(gj)
        d.append(dj)
    g.append(np.ones(n))
    d.append(np.full(n, spec["base"]["damping"]))
    return g, d


def exact(spec, strains=None):
    """Exact solution for given strains (none: small-strain properties)."""
    g, d = expected_damping(spec, strains)
    thick = [la["thickness"] for la in spec["layers"]] + [0.0]
    vs = [la["vs"] for la in spec["layers"]] + [spec["base"]["vs"]]
    rho = [(s["spec"] if s["kind"] == "plain" else s)["unit_wt"] / gen.G for s in spec["soils"]] + [23.0 / gen.G]
    return ref.SH(spec["freqs"], thick, [v * np.sqrt(a) for v, a in zip(vs, g)], rho, d)


def places(rng, spec):
    total = sum(la["thickness"] for la in spec["layers"])
    z = float(rng.uniform(0, total))
    top = 0.0
    for k, la in enumerate(spec["layers"]):
        if top <= z < top + la["thickness"]:
            return z, (k, z - top)
        top += la["thickness"]
    return total, (len(spec["layers"]), 0.0)


def linear(ctx, rng, i):
    p = gen.ps().propagation
    spec = case(rng)
    ctx.case(spec=spec)
    prof, mot = profile(spec), gen.build_motion(spec["motion"])
    calc = p.LinearElasticCalculator()
    base = (len(spec["layers"]), 0.0)
    lin = prof.location("outcrop", index=-1)
    calc(mot, prof, lin)
    sh = exact(spec)
    for _ in range(2):
        z, where = places(rng, spec)
        check_tfs(ctx, calc, sh, {"depth": z}, lin, prof.location("within", depth=z), base, where, tag="damping per frequency: ")
    # One frequency at a time
    n = spec["freqs"].size
    z, _ = places(rng, spec)
    tf = calc.calc_accel_tf(lin, prof.location("outcrop", depth=z))
    for j in sample(rng, n, 3):
        one = profile(spec, j)
        c = p.LinearElasticCalculator()
        c(mot, one, one.location("outcrop", index=-1))
        t = c.calc_accel_tf(one.location("outcrop", index=-1), one.location("outcrop", depth=z))
        ctx.close(tf[j], t[j], "analysis of one frequency's soil", 1e-9)
        ctx.see("frequencies compared with the ordinary soil")
    # Copies and discretizations
    for label, other in (("copy", prof.copy()), ("discretized", prof.auto_discretize())):
        c = p.LinearElasticCalculator()
        c(mot, other, other.location("outcrop", index=-1))
        a = c.calc_accel_tf(other.location("outcrop", index=-1), other.location("within", index=0))
        b = calc.calc_accel_tf(lin, prof.location("within", index=0))
        ctx.close(a, b, f"{label}: transfer function", 1e-7)
    ctx.nontrivial(spec)


def nonlinear(ctx, rng, i):
    p, site = gen.ps().propagation, gen.ps().site
    method = ("eql", "zr15", "ko:30", "eql", "ka02")[i % 5]
    spec = case(rng)
    ratio = float(rng.uniform(0.4, 1.0))
    cap = int(rng.integers(1, 5))
    ctx.case(spec=spec, method=method, ratio=ratio, iterations=cap)
    mot = gen.build_motion(spec["motion"])
    freqs, fas, peak = motion_parts(spec["motion"], mot)
    runs = []
    for k in (cap, cap + 1):
        prof = profile(spec)
        calc = p.EquivalentLinearCalculator(ratio, 0.0, k, 0.0) if method == "eql" else p.FrequencyDependentEqlCalculator(method, ratio, 0.0, k, 0.0)
        calc(mot, prof, prof.location("outcrop", index=-1))
        runs.append((calc, prof))
    before, after = ([la.strain for la in prof[:-1]] for _, prof in runs)
    calc, prof = runs[1]
    base, n = (len(spec["layers"]), 0.0), freqs.size
    lin = prof.location("outcrop", index=-1)
    sh = exact(spec, before)
    z, where = places(rng, spec)
    check_tfs(ctx, calc, sh, {"depth": z}, lin, prof.location("within", depth=z), base, where, tag=f"{method}: ", stress=False)
    g, d = expected_damping(spec, after)
    for k, la in enumerate(prof[:-1]):
        t = spec["layers"][k]["thickness"]
        tf = calc.calc_strain_tf(lin, site.Location(k, la, "within", t / 2))
        eff = ratio * peak(tf)
        if method == "eql":
            ctx.equal(np.ndim(la.strain), 0, "eql: one strain")
            ctx.close(la.strain, eff, "eql: effective strain", 1e-9)
            ref_tf = strain_tf(sh, base, "outcrop", (k, t / 2))
            ctx.close(la.strain, ratio * peak(ref_tf), "eql: effective strain of the exact solution", 1e-6)
        else:
            want = eff * shape(method, freqs, np.abs(tf * fas))
            ctx.close(np.asarray(la.strain), want, f"{method}: strain spectrum", 1e-5 if method == "ka02" else 1e-7, 1e-7 * eff)
        gmax = la.unit_wt / gen.G * spec["layers"][k]["vs"] ** 2
        ctx.close(np.broadcast_to(la.shear_mod, n), gmax * g[k], f"{method}: modulus at each frequency", 1e-9)
        ctx.close(np.broadcast_to(la.damping, n), d[k], f"{method}: damping at each frequency", 1e-9, 1e-12)
        ctx.see("layers of nonlinear analyses")
        if np.ptp(np.broadcast_to(la.damping, n)) > 1e-4:
            ctx.nontrivial(spec, method, ratio)


def alike(ctx, rng, i):
    """Columns that are all the same are an ordinary soil."""
    p = gen.ps().propagation
    spec = case(rng, alike=True)
    method = ("LE", "eql", "zr15", "eql", "ka02", "ko:20")[i % 6]
    opt = dict(strain_ratio=float(rng.uniform(0.4, 1)), tolerance=float(rng.choice([0.01, 1.0])), max_iterations=int(rng.integers(2, 15)), strain_limit=0.0)
    ctx.case(spec=spec, method=method, options=opt)
    out = []
    for j in (None, 0):
        prof, mot = profile(spec, j), gen.build_motion(spec["motion"])
        calc = {"LE": lambda: p.LinearElasticCalculator(), "eql": lambda: p.EquivalentLinearCalculator(**opt)}.get(method, lambda: p.FrequencyDependentEqlCalculator(method, **opt))()
        lin = prof.location("outcrop", index=-1)
        calc(mot, prof, lin)
        tf = calc.calc_accel_tf(lin, prof.location("outcrop", index=0))
        res = [tf, np.asarray(mot.calc_peak(tf)), np.asarray(mot.calc_osc_accels(np.array([0.5, 2.0, 8.0]), 0.05, tf))]
        n = tf.size
        for la in prof[:-1]:
            res += [np.broadcast_to(x, n) for x in (la.shear_mod, la.damping, la.strain if la.strain is not None else 0.0)]
        out.append(res)
    for a, b in zip(*out):
        ctx.close(a, b, f"{method}: columns all alike", 1e-7, 1e-13)
    ctx.see("analyses with equal columns")
    ctx.nontrivial(spec, method)


MONITORS = [
    Monitor("curves", curves, 60, 2000, {"strains per frequency": 100}),
    Monitor("states", states, 60, 2000, {"layer states": 200}),
    Monitor("linear", linear, 60, 2000, {"frequencies compared with the ordinary soil": 150}),
    Monitor("nonlinear", nonlinear, 70, 2000, {"layers of nonlinear analyses": 100}),
    Monitor("alike", alike, 60, 2000, {"analyses with equal columns": 50}),
]
