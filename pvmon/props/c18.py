"""Random layers of every kind of soil (linear, curves, curve for only one property,
empirical, published, damping per frequency) driven through sequences of scalar and
per-frequency strains, resets, velocity and damping changes, and analyses. After each
step modulus, velocity, damping, stresses and the adjusted curve are recomputed from
the soil's curve points. Non-trivial: a strain inside the curve's range on a nonlinear
soil."""
import numpy as np

from .. import gen
from ..core import Monitor
from .c17 import DEFAULT, value


def curve_at(curve, param, strain):
    return np.array([value(curve.strains, curve.values, s, DEFAULT[param]) for s in np.atleast_1d(strain)]).reshape(np.shape(strain))


class Expected:
    """State of a layer by definition."""

    def __init__(self, soil, vs, dmin, thick):
        self.soil, self.vs, self.dmin, self.thick = soil, vs, dmin, thick
        self.reset()

    def reset(self):
        self.strain = 1e-6
        self.at_rest = True

    def modulus(self):
        g = self.soil.unit_wt / gen.G * self.vs**2
        if self.at_rest or self.soil.mod_reduc is None:
            return g
        return g * curve_at(self.soil.mod_reduc, "mod_reduc", self.strain)

    def damping(self):
        c = self.soil.damping
        if self.at_rest or not hasattr(c, "strains"):
            return self.dmin
        return curve_at(c, "damping", self.strain) - c.values[0] + self.dmin


def judge(ctx, la, ex, label):
    kw = dict(rtol=1e-9)
    g, d = ex.modulus(), ex.damping()
    g0 = ex.soil.unit_wt / gen.G * ex.vs**2
    rho = ex.soil.unit_wt / gen.G

    def near(got, want, name, atol=0.0):
        got = np.asarray(got, dtype=float)
        want = np.asarray(want, dtype=float)
        # A constant may stand for a constant array
        if got.shape != want.shape:
            got, want = np.broadcast_arrays(got, want)
        ctx.close(got, want, f"{label}: {name}", 1e-9, atol)

    near(la.shear_mod, g, "modulus")
    near(la.damping, d, "damping", 1e-12)
    near(la.strain, ex.strain, "strain")
    near(la.shear_vel, np.sqrt(g / rho), "velocity")
    near(la.shear_mod_reduc, g / g0, "modulus reduction")
    near(la.stress_shear_eff, g * ex.strain, "effective stress")
    near(la.initial_shear_mod, g0, "small-strain modulus")
    near(la.initial_shear_vel, ex.vs, "small-strain velocity")
    near(la.damping_min, ex.dmin, "minimum damping")
    near(la.travel_time, ex.thick / np.sqrt(g / rho), "travel time")
    near(la.density, rho, "density")
    near(la.unit_wt, ex.soil.unit_wt, "unit weight")
    st = ex.soil
    small = st.damping.values[0] if hasattr(st.damping, "strains") else st.damping
    near(st.damping_min, small, "minimum damping of the soil")
    if np.all(np.asarray(small) > 0):
        near(st.quality, 1 / (2 * np.asarray(small)), "quality of the soil")
    if ex.at_rest:
        ctx.true(la.strain_max is None, f"{label}: maximum strain at rest")
    adj = la.adjusted_damping_curve
    c = ex.soil.damping
    if hasattr(c, "strains"):
        ctx.close(adj.strain, c.strains, f"{label}: adjusted curve strains", 1e-12)
        ctx.close(adj.damping, curve_at(c, "damping", c.strains) - c.values[0] + ex.dmin, f"{label}: adjusted curve", 1e-9, 1e-12)
    else:
        ctx.close(np.array(adj.damping), np.array([ex.dmin]), f"{label}: adjusted curve of a linear soil", 1e-12)
    ctx.see("states judged")


def histories(ctx, rng, i):
    site = gen.ps().site
    kinds = [None, False, True]
    spec = gen.soil_spec(rng, kinds[i % 3])
    soil = gen.build_soil(spec)
    vs = float(rng.uniform(90, 1500))
    thick = float(rng.uniform(0.2, 20))
    own = rng.random() < 0.6
    dmin = float(rng.choice([0.0, rng.uniform(0.001, 0.1)])) if own else None
    la = site.Layer(soil, thick, vs, dmin) if own else site.Layer(soil, thick, vs)
    fresh_error = la.max_error
    ref_dmin = dmin if own else (soil.damping.values[0] if hasattr(soil.damping, "values") else soil.damping)
    ex = Expected(soil, vs, ref_dmin, thick)
    other = site.Layer(soil, thick, vs, 0.033)
    points = [(np.array(c.strains), np.array(c.values)) for c in (soil.mod_reduc, soil.damping) if hasattr(c, "strains")]
    log = []
    ctx.case(soil=spec, vs=vs, dmin=dmin, log=log)
    judge(ctx, la, ex, "as built")
    inside = False
    for _ in range(int(rng.integers(2, 9))):
        op = str(rng.choice(["scalar", "scalar", "array", "reset", "velocity", "damping", "max", "curve"]))
        if op == "scalar":
            s = float(rng.choice([0.0, 1e-9, 10 ** rng.uniform(-6, -1), 10 ** rng.uniform(-5, -2), 0.5]))
            la.strain = s
            ex.strain, ex.at_rest = s, False
            inside = inside or (spec["kind"] != "linear" and 1e-5 < s < 1e-2)
        elif op == "array":
            s = 10 ** rng.uniform(-6, -1, int(rng.integers(1, 12)))
            la.strain = s.copy()
            ex.strain, ex.at_rest = s, False
        elif op == "reset":
            la.reset()
            ex.reset()
        elif op == "velocity":
            la.initial_shear_vel = ex.vs = float(rng.uniform(90, 1500)) if rng.random() < 0.7 else ex.vs
            ex.reset()
        elif op == "damping":
            la.damping_min = ex.dmin = float(rng.choice([0.0, rng.uniform(0, 0.1), ex.dmin]))
            ex.reset()
        elif op == "curve":
            # The soil's own curves are edited; layers at rest do not follow them
            for c, lo in ((soil.mod_reduc, 0.05), (soil.damping, 0.0)):
                if hasattr(c, "strains") and spec["kind"] == "curves":
                    k = float(rng.uniform(0.7, 1.0))
                    c.values = lo + (np.array(c.values) - lo) * k
            points = [(np.array(c.strains), np.array(c.values)) for c in (soil.mod_reduc, soil.damping) if hasattr(c, "strains")]
            ctx.see("soils edited", spec["kind"] == "curves")
            if rng.random() < 0.5:
                la.reset()
                ex.reset()
            else:
                ex.strain, ex.at_rest = float(10 ** rng.uniform(-5, -2)), False
                la.strain = ex.strain
        else:
            la.strain_max = 0.0123
            ctx.close(la.stress_shear_max, ex.modulus() * 0.0123, "maximum stress", 1e-9)
            la.strain_max = None
        log.append(op)
        judge(ctx, la, ex, f"after {op}")
        if ex.at_rest:
            ctx.close(la.max_error, fresh_error, f"after {op}: error of a layer at rest", 1e-9)
            ctx.see("returns to rest")
        ctx.close(other.damping, 0.033, "another layer of the soil", 1e-12)
        ctx.close(other.shear_vel, vs, "another layer of the soil", 1e-12)
    c = la.copy()
    ex2 = Expected(soil, ex.vs, ex.dmin, thick)
    judge(ctx, c, ex2, "copy")
    for c, p in zip([c for c in (soil.mod_reduc, soil.damping) if hasattr(c, "strains")], points):
        ctx.same(c.strains, p[0], "strains of the soil")
        ctx.same(c.values, p[1], "values of the soil")
    if inside:
        ctx.nontrivial(spec, vs, dmin, log)


def profiles(ctx, rng, i):
    """Resetting a profile after any strains restores every layer."""
    spec = gen.profile_spec(rng, n=int(rng.integers(1, 8)), nonlinear=None)
    prof = gen.build_profile(spec)
    ctx.case(profile=spec)

    def state():
        return [np.asarray(x) for la in prof for x in (
            la.strain, la.shear_mod, la.damping, la.shear_vel, la.max_error, la.initial_shear_vel, la.damping_min,
            la.depth, la.stress_vert(), np.nan if la.strain_max is None else la.strain_max)]

    start = state()
    for _ in range(3):
        for la in prof:
            for _ in range(int(rng.integers(0, 4))):
                s = 10 ** rng.uniform(-6, -1, 5) if rng.random() < 0.3 else float(10 ** rng.uniform(-6, -1))
                la.strain = s
                la.strain_max = 0.5
        prof.reset_layers()
        for a, b in zip(state(), start):
            ctx.near(a, b, "reset of a profile")
        for la in prof:
            la.strain = float(10 ** rng.uniform(-6, -2))
        for name in ("strain", "shear_vel", "damping", "max_error", "comp_shear_mod", "comp_shear_vel", "unit_wt", "density", "thickness", "depth", "depth_mid", "travel_time", "initial_shear_vel"):
            got = getattr(prof, name)
            ctx.equal(got.shape, (len(prof),), f"values of the profile: {name}")
            for a, la in zip(got, prof):
                ctx.near(a, getattr(la, name), f"values of the profile: {name}")
        for la in prof:
            c = np.sqrt(la.comp_shear_mod / la.density)
            ctx.close(la.comp_shear_vel, c, "complex velocity follows from the complex modulus", 1e-12)
        ctx.see("profile vectors", 13)
        prof.reset_layers()
        ctx.see("profiles reset")
    ctx.nontrivial(spec)


def frequencies(ctx, rng, i):
    """Soils whose minimum damping depends on frequency."""
    site = gen.ps().site
    m = int(rng.integers(2, 6))
    fr = np.sort(10 ** rng.uniform(-0.5, 1.3, m))
    args = dict(unit_wt=18.0, plas_index=float(rng.uniform(0, 60)), ocr=float(rng.uniform(1, 4)), stress_mean=float(rng.uniform(20, 500)))
    soil = site.DarendeliSoilType(freq=fr, **args)
    each = [site.DarendeliSoilType(freq=f, **args) for f in fr]
    ctx.case(freqs=fr, **args)
    la = site.Layer(soil, 2.0, 200.0)
    ctx.close(la.damping, [e.damping_min for e in each], "per frequency: minimum damping", 1e-12)
    for s in 10 ** rng.uniform(-6, -1.6, 4):
        la.strain = float(s)
        want = [curve_at(e.damping, "damping", float(s)) for e in each]
        ctx.close(la.damping, want, "per frequency: damping", 1e-9, 1e-12)
        ctx.close(la.shear_mod_reduc, curve_at(each[0].mod_reduc, "mod_reduc", float(s)), "per frequency: modulus", 1e-9)
        ctx.see("states per frequency", m)
    strains = 10 ** rng.uniform(-6, -1.6, m)
    la.strain = strains
    ctx.close(la.damping, [curve_at(e.damping, "damping", float(s)) for e, s in zip(each, strains)], "strain per frequency: damping", 1e-9, 1e-12)
    ctx.close(la.shear_mod_reduc, [curve_at(each[0].mod_reduc, "mod_reduc", float(s)) for s in strains], "strain per frequency: modulus", 1e-9)
    la.reset()
    ctx.close(la.damping, [e.damping_min for e in each], "per frequency: reset", 1e-12)
    ctx.nontrivial(fr, args)


MONITORS = [
    Monitor("histories", histories, 450, 15000, {"states judged": 1500, "returns to rest": 300, "soils edited": 35}),
    Monitor("profiles", profiles, 150, 4000, {"profiles reset": 300}),
    Monitor("frequencies", frequencies, 60, 1500, {"states per frequency": 300}),
]
