"""Random profiles, fresh and after analyses (imposed strains, equivalent linear, frequency
dependent), with every form of exclusion (none, pattern, list, predicate), targets from
unreachable to large, and both in-place settings. The total attenuation is recomputed from
the layers, the scattering from an independent propagator solution, and every other property
is compared with the input. Non-trivial: each distinct profile, exclusion and target."""
import re

import numpy as np

from .. import gen
from ..core import Monitor
from ..ref import SH
from .c15 import snapshot, unchanged, upset

NAMES = ["Fill", "Sand (w)", "Clay", "Gravel", "Till", "Peat", "Loess", "Chalk", "Silt", "Marl", "Ash", "Weathered", "Boulders", "Alluvium", "sand", "Coarse till", "Sandy", "Coarsest", "peaty", "GRAVEL"]


def profile(rng):
    spec = gen.profile_spec(rng)
    names = [NAMES[k] for k in rng.permutation(len(NAMES))]
    for s, n in zip(spec["soils"], names):
        s["name"] = n
    spec["soils"][-1]["name"] = "Rock"
    return spec


def scatter(prof, freqs=None):
    """Attenuation of the response between 50 and 200 Hz beyond that of the damping."""
    freqs = np.linspace(50, 200, num=256) if freqs is None else freqs
    thick = [la.thickness for la in prof]
    vs = [la.initial_shear_vel for la in prof]
    d = [la.damping_min for la in prof]
    sh = SH(freqs, thick, vs, [la.unit_wt / gen.G for la in prof], d)
    base = (len(thick) - 1, 0.0)
    tf = np.abs(sh.field((0, 0.0), "outcrop") / sh.field(base, "outcrop"))
    slope = np.polyfit(freqs, np.log(tf), 1)[0]
    atten = sum(2 * x * h / v for x, h, v in zip(d, thick, vs))
    return max(-slope / np.pi - atten, 0), max(abs(slope) / np.pi, atten)


def exclusion(rng, spec, i):
    names = sorted({spec["soils"][la["soil"]]["name"] for la in spec["layers"]})
    pick = [str(n) for n in rng.permutation(names)[: int(rng.integers(1, len(names) + 1))]]
    kind = ("none", "pattern", "list", "predicate")[i % 4]
    vs = sorted(la["vs"] for la in spec["layers"])
    lim = float(vs[int(rng.integers(len(vs)))])
    if kind == "none":
        return kind, None, lambda la: False
    if kind == "pattern":
        pat = str(rng.choice(["|".join(re.escape(p) for p in pick), pick[0][:2], re.escape(pick[0][1:4]), re.escape(pick[0][-3:]), pick[0].split()[0] + " ", "[a-z]", ".*l", "^[A-G]", "Rock", "nothing"]))
        return kind, pat, lambda la: re.match(pat, la.soil_type.name) is not None
    if kind == "list":
        lst = pick if rng.random() < 0.8 else [*pick, "absent"]
        if rng.random() < 0.3:
            # A part of a name stands for every name with it
            part = pick[0][int(rng.integers(0, 3)) :][: int(rng.integers(2, 6))]
            lst = [part, *lst[1:]]
        if rng.random() < 0.25:
            # A long list, most of it about other soils
            lst = [f"other {k}" for k in range(int(rng.integers(6, 40)))] + lst
        return kind, lst, lambda la: any(e in la.soil_type.name for e in lst)
    f = (lambda la: la.initial_shear_vel > lim, lambda la: la.thickness <= 2, lambda la: la.depth > 10)[int(rng.integers(3))]
    return kind, f, f


def adjust(ctx, rng, i):
    tools = gen.ps().tools
    spec = profile(rng)
    kind, exclude, excluded = exclusion(rng, spec, i)
    prof = gen.build_profile(spec)
    fresh = gen.build_profile(spec)
    used = i % 3 == 1
    if used:
        upset(rng, prof, gen.ts_spec(rng, n=128))
    want_sc, scale = scatter(fresh)
    out = [bool(excluded(la)) for la in fresh]
    kept = sum(2 * la.damping_min * la.thickness / la.initial_shear_vel for la, x in zip(fresh, out) if x)
    floor = want_sc + kept
    inplace = bool(rng.random() < 0.5)
    target = float(floor + 10 ** rng.uniform(-3.5, -0.8))
    if i % 5 == 4:
        target = float(rng.choice([0.0, -0.01, floor * rng.uniform(0, 0.95)]))
    ctx.case(profile=spec, target=target, exclude=kind, value=str(exclude) if kind != "predicate" else None, inplace=inplace, used=used)
    before = snapshot(prof)
    kw = {} if exclude is None and i % 8 else {"exclude": exclude}
    if inplace or i % 3:
        kw["inplace"] = inplace
    movable = any(la.thickness > 0 for la, x in zip(fresh, out) if not x)
    if all(out) or target < floor - 1e-6 * (scale + kept) - 1e-9:
        ctx.raises(lambda: tools.adjust_damping_values(prof, target, **kw), "target that cannot be met", RuntimeError)
        unchanged(ctx, prof, before, "profile after a refusal")
        ctx.see("refusals: no layers" if all(out) else "refusals: target")
        ctx.nontrivial(spec, target, kind)
        return
    if not movable or target < floor + 1e-6 * (scale + kept):
        # Only layers without thickness are left, or a target at the limit
        return
    got, sc = tools.adjust_damping_values(prof, target, **kw)
    ctx.true((got is prof) == inplace, "profile that is returned")
    if not inplace:
        unchanged(ctx, prof, before, "input profile")
        ctx.true(not ({id(la) for la in got} & {id(la) for la in prof}), "layers shared with the input")
    tol = 1e-9 * (scale / 1e-3) + 1e-6 * scale
    ctx.close(sc, want_sc, "scattering attenuation", 1e-6, tol)
    atten = sum(2 * la.damping_min * la.thickness / la.initial_shear_vel for la in got)
    ctx.close(atten + sc, target, "target attenuation", 1e-9)
    ctx.close(got.site_attenuation(), atten, "site attenuation", 1e-12)
    ctx.equal(len(got), len(fresh), "number of layers")
    prods = []
    for la, la0, x in zip(got, fresh, out):
        ctx.equal(
            (la.soil_type.name, la.soil_type.unit_wt, la.thickness, la.initial_shear_vel, la.depth),
            (la0.soil_type.name, la0.soil_type.unit_wt, la0.thickness, la0.initial_shear_vel, la0.depth), "layer",
        )
        if x:
            ctx.equal(la.damping_min, la0.damping_min, "damping of an excluded layer")
            ctx.see("excluded layers")
        else:
            prods.append(la.damping_min * la.initial_shear_vel)
            ctx.see("adjusted layers")
        # Initial state
        ctx.close(np.max(la.shear_vel), la.initial_shear_vel, "velocity of the adjusted profile", 1e-12)
        ctx.close(np.max(la.shear_mod), la0.initial_shear_mod, "modulus of the adjusted profile", 1e-12)
        ctx.close(np.max(la.damping), la.damping_min, "damping of the adjusted profile", 1e-9, 1e-12)
    ctx.close(prods, np.full(len(prods), prods[0]), "damping inversely proportional to the velocity", 1e-9)
    ctx.true(prods[0] > 0, "positive damping")
    ctx.equal(got.wt_depth, spec["wt_depth"], "water table")
    ctx.see("adjusted in place" if inplace else "adjusted copies")
    ctx.see("adjusted after an analysis", used)
    ctx.nontrivial(spec, target, kind)


def scattering(ctx, rng, i):
    tools = gen.ps().tools
    spec = profile(rng)
    prof = gen.build_profile(spec)
    freqs = None if i % 2 else np.linspace(rng.uniform(10, 60), rng.uniform(80, 250), int(rng.integers(40, 300)))
    ctx.case(profile=spec, freqs=freqs)
    want, scale = scatter(gen.build_profile(spec), freqs)
    if i % 3 == 0:
        upset(rng, prof, gen.ts_spec(rng, n=128))
    before = snapshot(prof)
    got = tools.calc_atten_scatter(prof) if freqs is None else tools.calc_atten_scatter(prof, list(freqs) if i % 4 else freqs)
    ctx.close(got, want, "scattering attenuation", 1e-6, 1e-6 * scale + 1e-12)
    ctx.true(got >= 0, "sign of the scattering attenuation")
    unchanged(ctx, prof, before, "profile")
    ctx.see("scattering attenuations above zero", got > 0)
    # A profile without contrasts does not scatter
    s = {"kind": "linear", "name": "u", "unit_wt": 20.0, "damping": 0.02}
    n = int(rng.integers(1, 5))
    v = float(rng.uniform(200, 2000))
    uni = {"soils": [s], "layers": [{"soil": 0, "thickness": float(rng.uniform(1, 20)) if k < n else 0.0, "vs": v, "dmin": None} for k in range(n + 1)], "wt_depth": 0.0}
    p = gen.build_profile(uni)
    ctx.close(tools.calc_atten_scatter(p), 0, "scattering of a uniform profile", 0, 3 * 0.02**2 * p.site_attenuation())
    ctx.see("uniform profiles")
    ctx.nontrivial(spec, i % 2)


MONITORS = [
    Monitor("adjust", adjust, 400, 12000, {"adjusted layers": 800, "excluded layers": 250, "refusals: target": 30, "refusals: no layers": 10, "adjusted in place": 60, "adjusted copies": 60, "adjusted after an analysis": 50}),
    Monitor("scattering", scattering, 120, 4000, {"scattering attenuations above zero": 30, "uniform profiles": 100}),
]
