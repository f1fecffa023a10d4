"""Random profiles with every site class, random model parameters, depth- and
soil-dependent standard deviations and both bedrock settings. Each realisation is compared
with its seed layer by layer; over 4000 realisations the mean, variance and layer-pair
moments of the normalised deviations are tested against the limited multivariate normal of
the published correlation function (limit 6.5 standard deviations). Seeds are used fresh
and after nonlinear analyses. Non-trivial: each distinct seed and model."""
import numpy as np
from scipy import stats

from .. import gen
from ..core import Monitor
from .c15 import upset
from .c30 import state

ASSUMPTIONS = ["statistical limits of 6.5 standard deviations: about 1e-10 per test on correct code"]

# Toro (1995), Table 6: standard deviation and correlation parameters
TABLE = {
    "Geomatrix AB": (0.46, 0.96, 13.1, 0.96, 0.0, 0.095),
    "Geomatrix CD": (0.38, 0.99, 8.0, 1.00, 0.0, 0.160),
    "USGS AB": (0.35, 0.95, 4.2, 1.00, 0.0, 0.138),
    "USGS CD": (0.36, 0.99, 3.9, 1.00, 0.0, 0.293),
    "USGS A": (0.36, 0.95, 3.4, 0.42, 0.0, 0.063),
    "USGS B": (0.27, 0.97, 3.8, 1.00, 0.0, 0.293),
    "USGS C": (0.31, 0.99, 3.9, 0.98, 0.0, 0.344),
    "USGS D": (0.37, 0.00, 5.0, 0.50, 0.0, 0.744),
}
KEYS = ("ln_std", "rho_0", "delta", "rho_200", "h_0", "b")
LIMIT = 2.0
# Standard deviation of a normal limited to two standard deviations, inverted
SCALE = 1 / np.sqrt(1 - 2 * LIMIT * stats.norm.pdf(LIMIT) / (2 * stats.norm.cdf(LIMIT) - 1))


def hermite(n=300):
    """Squared Hermite coefficients of the normal limited at +-LIMIT."""
    c = np.zeros(n)
    c[1] = 2 * stats.norm.cdf(LIMIT) - 1
    # Normalised Hermite polynomials at the limit
    h = [1.0, LIMIT]
    for k in range(2, n):
        h.append((LIMIT * h[-1] - np.sqrt(k - 1) * h[-2]) / np.sqrt(k))
    for k in range(3, n, 2):
        c[k] = -2 * h[k - 2] * stats.norm.pdf(LIMIT) / np.sqrt(k * (k - 1))
    return c**2


C2 = hermite()
P = 2 * stats.norm.cdf(LIMIT) - 1
VAR = P - 2 * LIMIT * stats.norm.pdf(LIMIT) + LIMIT**2 * (1 - P)


def moment(r):
    """Expected product of two limited standard normals of correlation r."""
    if r == 1:
        return VAR
    return float(np.sum(C2 * r ** np.arange(C2.size)))


def depths(spec):
    thick = np.array([la["thickness"] for la in spec["layers"]])
    return np.r_[0, np.cumsum(thick[:-1])] + thick / 2


def correlations(spec, par):
    mid = depths(spec)[:-1]
    corr = []
    for a, b in zip(mid[:-1], mid[1:]):
        h, t = (a + b) / 2, min(b - a, 100)
        rd = par["rho_200"]
        if h <= 200:
            rd *= ((h + par["h_0"]) / (200 + par["h_0"])) ** par["b"]
        corr.append((1 - rd) * par["rho_0"] * np.exp(-t / par["delta"]) + rd)
    return np.array(corr + [1.0])


def make(rng, i, spec):
    """A model: constructor call, the parameters it should have, and its deviations."""
    v = gen.ps().variation
    name = str(rng.choice(list(TABLE)))
    par = dict(zip(KEYS, TABLE[name]))
    kind = ("generic", "toro", "depth", "depth generic")[i % 4]
    kw = {}
    if kind == "toro":
        par = {
            "ln_std": float(rng.choice([rng.uniform(0.05, 0.6), rng.uniform(0.6, 1.2), 0.0])), "rho_0": float(rng.uniform(0, 1)), "delta": float(rng.uniform(1, 20)),
            "rho_200": float(rng.uniform(0, 1)), "h_0": float(rng.choice([0, rng.uniform(0, 30), rng.uniform(30, 90)])), "b": float(rng.choice([rng.uniform(0.05, 1), rng.uniform(1, 3)])),
        }
    if kind in ("generic", "depth generic") and rng.random() < 0.5:
        kw = {str(rng.choice(["rho_0", "rho_200", "b"])): float(rng.uniform(0.05, 0.95))}
        if kind == "generic" and rng.random() < 0.5:
            kw["ln_std"] = 0.2
        par.update(kw)
    bed = bool(rng.random() < 0.5)
    sd = np.full(len(spec["layers"]), par["ln_std"], dtype=float)
    smap = None
    if kind.startswith("depth"):
        d, s = [0, 15], [0.25, 0.15]
        if kind == "depth" or rng.random() < 0.5:
            s = [float(rng.uniform(0.1, 0.5)), float(rng.uniform(0.1, 0.5))]
            if kind == "depth generic":
                kw["ln_std"] = s
        if kind == "depth":
            d = sorted(float(x) for x in rng.uniform(0, 60, 3))
            s = [float(x) for x in rng.uniform(0.05, 0.5, 3)]
        sd = np.interp(depths(spec), d, s)
        if rng.random() < 0.6:
            smap = {spec["soils"][int(rng.integers(len(spec["soils"])))]["name"]: 0.33}
            if rng.random() < 0.5:
                smap["rock"] = 0.08
            names = [s["name"] for s in spec["soils"]]
            other = names[int(rng.integers(len(names)))].swapcase()
            if not any(other in s for s in names):
                # Not the name of a soil of the profile
                smap[other] = 0.61
            for j, la in enumerate(spec["layers"]):
                for key, val in smap.items():
                    if key in spec["soils"][la["soil"]]["name"]:
                        sd[j] = val
        par["depth"], par["ln_std"] = d, s

    def build():
        if kind == "generic":
            return v.ToroVelocityVariation.generic_model(name, vary_bedrock=bed, **kw)
        if kind == "toro":
            return v.ToroVelocityVariation(**par, vary_bedrock=bed)
        if kind == "depth":
            return v.DepthDependToroVelVariation(**par, vary_bedrock=bed, ln_std_map=smap)
        return v.DepthDependToroVelVariation.generic_model(name, ln_std_map=smap, vary_bedrock=bed, **kw)

    return build, {"kind": kind, "class": name, "overrides": kw, "bedrock": bed, "map": smap, **par}, par, bed, sd


def seed_spec(rng, n=None, deep=False):
    spec = gen.profile_spec(rng, n=n, max_thick=60)
    if deep:
        # Interfaces around and below 200 m, where the correlation stops growing
        for la in spec["layers"]:
            la["thickness"] = float(rng.uniform(25, 80))
    spec["layers"][-1]["thickness"] = 0.0
    return spec


def same_but_velocity(ctx, prof, varied, bed):
    ctx.equal(len(varied), len(prof), "number of layers")
    for a, b in zip(prof, varied):
        ctx.true(a is not b, "layer shared with the seed")
        ctx.true(a.soil_type == b.soil_type and a.thickness == b.thickness and a.damping_min == b.damping_min, "property other than the velocity")
        ctx.close(b.depth, a.depth, "depth", 1e-12)
        ctx.close(np.max(b.shear_vel), b.initial_shear_vel, "current velocity", 1e-12)
        ctx.close(b.initial_shear_mod, b.density * b.initial_shear_vel**2, "shear modulus", 1e-12)
    ctx.equal(varied.wt_depth, prof.wt_depth, "water table")
    if not bed:
        ctx.equal(varied[-1].initial_shear_vel, prof[-1].initial_shear_vel, "bedrock velocity")


def realisation(ctx, rng, i):
    spec = seed_spec(rng)
    build, desc, par, bed, sd = make(rng, int(rng.integers(4)), spec)
    model = build()
    prof = gen.build_profile(spec)
    if i % 3 == 0:
        upset(rng, prof, gen.ts_spec(rng, n=128))
    ctx.case(profile=spec, model=desc)
    ctx.equal(model.vary_bedrock, bed, "bedrock setting")
    before = state(prof)
    vs = np.array([la["vs"] for la in spec["layers"]])
    devs = []
    for _ in range(12):
        varied = model(prof)
        same_but_velocity(ctx, prof, varied, bed)
        got = np.array([la.initial_shear_vel for la in varied])
        ctx.close(varied.initial_shear_vel, got, "profile velocities", 1e-12)
        dev = np.log(got / vs)
        ctx.true(np.all(np.abs(dev) <= LIMIT * SCALE * sd + 1e-9), "velocity limits", data=dev, limits=LIMIT * SCALE * sd)
        if bed and sd[-1] > 0 and sd[-2] > 0:
            ctx.close(dev[-1] / sd[-1], dev[-2] / sd[-2], "bedrock follows the layer above", 1e-4, 1e-5)
        devs.append(dev)
        ctx.see("varied velocities", dev.size)
    devs = np.array(devs)
    k = slice(None) if bed else slice(None, -1)
    # Different each time
    ctx.true(np.all((np.ptp(devs[:, k], axis=0) > 0) == (sd[k] > 0)), "velocities that differ between realisations")
    ctx.true(state(prof) == before, "seed after the variation")
    ctx.see("at a limit", np.sum(np.abs(np.abs(devs) - LIMIT * SCALE * sd) < 1e-9))
    ctx.nontrivial(spec, str(desc))


def moments(ctx, rng, i):
    deep = i % 3 == 1
    spec = seed_spec(rng, n=int(rng.integers(6, 9) if deep else rng.integers(2, 6)), deep=deep)
    build, desc, par, bed, sd = make(rng, 1 if i % 6 == 1 else i, spec)
    if i % 6 == 1:
        extra = {"h_0": float(rng.uniform(30, 90)), "b": float(rng.uniform(1, 3)), "rho_200": float(rng.uniform(0.3, 0.8))}
        par.update(extra)
        desc.update(extra)
    if not np.all(sd > 0):
        sd = np.full(len(sd), 0.3)
        par["ln_std"] = desc["ln_std"] = 0.3
    model, prof = build(), gen.build_profile(spec)
    n = 4000
    ctx.case(profile=spec, model=desc, realisations=n)
    vs = np.array([la["vs"] for la in spec["layers"]])
    z = np.array([np.log(model(prof).initial_shear_vel / vs) for _ in range(n)]) / sd / SCALE
    if not bed:
        z, sd = z[:, :-1], sd[:-1]
    m = z.shape[1]

    def test(sample, want, label):
        se = np.std(sample) / np.sqrt(n) + 1e-7
        ctx.true(abs(np.mean(sample) - want) < 6.5 * se, label, f"{np.mean(sample):.5f}, expected {want:.5f}, standard error {se:.5f}")

    corr = correlations(spec, par)
    for a in range(m):
        test(z[:, a], 0, "centre")
        test(z[:, a] ** 2, VAR, "variance")
        ctx.true(abs(np.mean(np.abs(z[:, a]) < 1) - (2 * stats.norm.cdf(1) - 1)) < 6.5 * np.sqrt(0.22 / n), "normal distribution")
        for b in range(a + 1, m):
            r = float(np.prod(corr[a:b]))
            test(z[:, a] * z[:, b], moment(r), "layer correlation")
            test((z[:, a] - z[:, b]) ** 2, 2 * (VAR - moment(r)), "adjacent layer difference" if b == a + 1 else "layer difference")
            ctx.see("layer pairs")
    # Successive realisations are independent
    ctx.true(abs(np.mean(z[1:] * z[:-1])) < 6.5 * VAR / np.sqrt(n), "independent realisations")
    ctx.see("realisations", n)
    ctx.nontrivial(spec, str(desc))


def pooled(ctx, rng, i):
    """Many layers of about the same correlation, for small differences of it."""
    m, n = 24, 3000
    spec = seed_spec(rng, n=m)
    build, desc, par, bed, sd = make(rng, 1, spec)
    delta = float(10 ** rng.uniform(0, 1.3))
    ratio = 10 ** rng.uniform(-1.3, 0.8)
    extra = {"delta": delta, "rho_0": float(rng.uniform(0.8, 1)), "ln_std": 0.3, "rho_200": float(rng.choice([rng.uniform(0, 0.3), rng.uniform(0.3, 1)]))}
    for la in spec["layers"][:-1]:
        la["thickness"] = float(delta * ratio * rng.uniform(0.8, 1.25))
    par.update(extra)
    desc.update(extra)
    model, prof = build(), gen.build_profile(spec)
    ctx.case(profile=spec, model=desc, realisations=n)
    vs = np.array([la["vs"] for la in spec["layers"]])
    z = np.array([np.log(model(prof).initial_shear_vel / vs) for _ in range(n)])[:, :-1] / 0.3 / SCALE
    corr = correlations(spec, par)[:-1]
    want = np.array([moment(r) for r in corr])
    pairs = [(a, b) for a in range(m) for b in range(a + 2, m) if b < z.shape[1]]
    far = np.array([moment(float(np.prod(corr[a:b]))) for a, b in pairs])
    distant = np.mean([z[:, a] * z[:, b] - r for (a, b), r in zip(pairs, far)], axis=0)
    weak = far < 0.02
    if weak.sum() > 20:
        ctx.see("pooled weak pairs", int(weak.sum()))
    for label, sample in (
        ("layer correlation", (z[:, :-1] * z[:, 1:] - want).mean(axis=1)),
        ("layer difference", ((z[:, 1:] - z[:, :-1]) ** 2 - 2 * (VAR - want)).mean(axis=1)),
        ("correlation of distant layers", distant),
        ("variance", (z**2 - VAR).mean(axis=1)),
        ("centre", z.mean(axis=1)),
    ):
        se = np.std(sample) / np.sqrt(n) + 1e-7
        ctx.true(abs(np.mean(sample)) < 6.5 * se, "pooled " + label, f"{np.mean(sample):.5f} more than expected, standard error {se:.5f}")
    ctx.see("pooled layer pairs", want.size * n)
    ctx.nontrivial(spec, str(desc))


def parameters(ctx, rng, i):
    v = gen.ps().variation
    ctx.case(parameters=i)
    for cls in (v.ToroVelocityVariation, v.DepthDependToroVelVariation):
        ctx.equal(sorted(cls.site_classes()), sorted(TABLE), "site classes")
    for name, row in TABLE.items():
        model = v.ToroVelocityVariation.generic_model(name)
        for k, w in zip(KEYS, row):
            ctx.equal(getattr(model, k), w, f"{name} {k}")
        ctx.equal(model.vary_bedrock, False, "bedrock by default")
        deep = v.DepthDependToroVelVariation.generic_model(name)
        for k, w in zip(KEYS[1:], row[1:]):
            ctx.equal(getattr(deep, k), w, f"depth-dependent {name} {k}")
        ctx.equal((list(deep.depth), list(deep.ln_std)), ([0, 15], [0.25, 0.15]), "depth-dependent deviations")
        # An override changes that parameter, of this model only
        k = KEYS[int(rng.integers(len(KEYS)))]
        val = float(rng.uniform(0.1, 0.9))
        for c in (v.ToroVelocityVariation, v.DepthDependToroVelVariation):
            kk = {k: [val, val / 2] if k == "ln_std" and c is not v.ToroVelocityVariation else val}
            other = c.generic_model(name, **kk)
            ctx.equal(getattr(other, k), kk[k], f"override of {k}")
            for k2, w in list(zip(KEYS, row))[1:]:
                if k2 != k:
                    ctx.equal(getattr(other, k2), w, f"{k2} with an override of {k}")
        ctx.equal(getattr(v.ToroVelocityVariation.generic_model(name), k), dict(zip(KEYS, row))[k], "after an override")
        ctx.see("classes")
    ctx.raises(lambda: v.ToroVelocityVariation.generic_model("USGS E"), "unknown class")
    for lo, hi, want in ((30, 180, "D"), (180, 360, "C"), (360, 750, "B"), (750, 4000, "A")):
        x = np.r_[rng.uniform(lo, hi, 8), np.nextafter(lo, hi), np.nextafter(hi, lo)]
        for y in x:
            name = v.ToroVelocityVariation.usgs_site_class(y)
            ctx.equal(str(name), f"USGS {want}", "class of a velocity", data=y)
            v.ToroVelocityVariation.generic_model(name)
            ctx.see("classified velocities")
    ctx.nontrivial(i)


def analysed(ctx, rng, i):
    """The state a seed is in does not matter."""
    spec = seed_spec(rng)
    build, desc, par, bed, sd = make(rng, int(rng.integers(4)), spec)
    model, seed = build(), int(rng.integers(1 << 30))
    ctx.case(profile=spec, model=desc)

    def vary(prof):
        np.random.seed(seed)
        return np.array([model(prof).initial_shear_vel for _ in range(3)])

    prof = gen.build_profile(spec)
    want = vary(prof)
    ctx.near(vary(prof), want, "same random seed")
    upset(rng, prof, gen.ts_spec(rng, n=128))
    ctx.near(vary(prof), want, "variation after an analysis")
    ctx.near(vary(model(prof)) if not np.any(sd) else vary(prof.copy()), want, "variation of a copy")
    ctx.see("variations after an analysis")
    ctx.nontrivial(spec, str(desc))


MONITORS = [
    Monitor("realisation", realisation, 150, 5000, {"varied velocities": 5000, "at a limit": 50}),
    Monitor("moments", moments, 24, 400, {"layer pairs": 60, "realisations": 50000}),
    Monitor("pooled", pooled, 12, 300, {"pooled layer pairs": 200000}),
    Monitor("parameters", parameters, 6, 100, {"classes": 40, "classified velocities": 200}),
    Monitor("analysed", analysed, 60, 2000, {"variations after an analysis": 50}),
]
