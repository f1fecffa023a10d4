"""Random soils (curves, empirical, published, linear), correlations from -1 to 1, default and
custom limits, and both sampling modes. Each realisation is inverted to the pair of normal
numbers that moved the curves, which must be one pair for all strains; the distribution and
correlation of the pairs over thousands of realisations is tested against the truncated
bivariate normal (limit 6.5 standard deviations); percentile realisations are compared with
the documented quantile formula. Non-trivial: each distinct soil and model."""
import copy

import numpy as np
from scipy import stats

from .. import gen
from ..core import Monitor

ASSUMPTIONS = ["statistical limits of 6.5 standard deviations: about 1e-10 per test on correct code"]
L = 2.0
S = 1 / np.sqrt(1 - 2 * L * stats.norm.pdf(L) / (2 * stats.norm.cdf(L) - 1))


def truncated(r):
    """Moments of a bivariate normal of correlation r within +-L: E[x2], E[xy], E[x4], E[x2y2]."""
    if abs(r) > 0.999:
        x = np.linspace(-L, L, 4001)
        w = stats.norm.pdf(x)
        y = x * np.sign(r)
        ws = w / w.sum()
        return [float(np.sum(ws * f)) for f in (x**2, x * y, x**4, x**2 * y**2)]
    nodes, wt = np.polynomial.legendre.leggauss(400)
    x = L * nodes
    X, Y = np.meshgrid(x, x)
    w = np.outer(wt, wt) * np.exp(-(X**2 - 2 * r * X * Y + Y**2) / (2 * (1 - r**2)))
    w /= w.sum()
    return [float(np.sum(w * f)) for f in (X**2, X * Y, X**4, X**2 * Y**2)]


def quantile_pair(p, rho):
    a = stats.norm.cdf(-L / S)
    z1 = S * stats.norm.ppf(a + p * (1 - 2 * a))
    z2 = rho * z1 + np.sqrt(1 - rho**2) * z1
    return np.clip([z1, z2], -L, L)


def values(curve):
    return np.array(curve.values if hasattr(curve, "values") else curve, dtype=float)


def full(soil):
    out = []
    for c in (soil.mod_reduc, soil.damping):
        if c is None or isinstance(c, (int, float)):
            out.append(c)
        else:
            out.append((c.name, c.strains.copy(), np.array(c.values)))
    return [soil.name, soil.unit_wt, type(soil), out]


def moved(kind, par, mr, d, z1, z2):
    """Curves moved by a pair, before limiting."""
    if kind == "darendeli":
        s_mr = np.exp(-4.23) + np.sqrt(0.25 / np.exp(3.62) - (mr - 0.5) ** 2 / np.exp(3.62))
        s_d = (np.exp(-5) + np.exp(-0.25) * np.sqrt(100 * d)) / 100
        return mr + z1 * s_mr, d + z2 * s_d
    with np.errstate(divide="ignore"):
        f = mr / np.maximum(1 - mr, 2**-52) * np.exp(z1 * 2 * par["std_mod_reduc"])
    return f / (1 + f), d * np.exp(z2 * par["std_damping"])


def invert(kind, par, mr, d, vmr, vd, lim_mr, lim_d):
    """The numbers that moved the points that are not at a limit."""
    z1, z2 = [], []
    for a, b in zip(mr, vmr):
        if lim_mr[0] + 1e-9 < b < lim_mr[1] - 1e-9 and (kind == "darendeli" or 1e-6 < a < 1 - 1e-6):
            if kind == "darendeli":
                z1.append((b - a) / (np.exp(-4.23) + np.sqrt(max(0.25 - (a - 0.5) ** 2, 0) / np.exp(3.62))))
            else:
                z1.append(np.log(b / (1 - b) * (1 - a) / a) / (2 * par["std_mod_reduc"]))
    for a, b in zip(d, vd):
        if lim_d[0] + 1e-12 < b < lim_d[1] - 1e-12 and a > 0:
            if kind == "darendeli":
                z2.append((b - a) / (np.exp(-5) + np.exp(-0.25) * np.sqrt(100 * a)) * 100)
            else:
                z2.append(np.log(b / a) / par["std_damping"])
    return np.array(z1), np.array(z2)


def model_spec(rng, kind, **extra):
    par = {"correlation": float(rng.choice([-1, -0.5, 0, 0.5, rng.uniform(-0.95, 0.95), 1])), **extra}
    if rng.random() < 0.4:
        lo = float(rng.uniform(0, 0.2))
        par["limits_mod_reduc"] = [lo, float(rng.uniform(0.8, 1) if rng.random() < 0.7 else rng.uniform(lo + 0.1, 0.8))]
    if rng.random() < 0.4:
        par["limits_damping"] = [float(rng.uniform(0, 0.01)), float(rng.uniform(0.1, 0.3))]
    if kind == "spid" and rng.random() < 0.6:
        par["std_mod_reduc"] = float(rng.uniform(0.05, 0.4))
        par["std_damping"] = float(rng.uniform(0.1, 0.6))
    return par


def build(kind, par):
    v = gen.ps().variation
    return (v.DarendeliVariation if kind == "darendeli" else v.SpidVariation)(**par)


def settings(kind, par):
    return {
        "limits_mod_reduc": [0.05, 1] if kind == "darendeli" else [0, 1], "limits_damping": [0, 0.15],
        "std_mod_reduc": 0.15, "std_damping": 0.3, **par,
    }


def soil_for(rng, i):
    spec = gen.soil_spec(rng, nonlinear=i % 6 != 5, i=i)
    if spec["kind"] == "curves" and spec["mr"] is not None:
        # Reductions within the range of the standard deviation models
        spec["mr"] = (spec["mr"][0], np.minimum(spec["mr"][1], 1.0))
    return spec


def unchanged(ctx, before, soil, label):
    after = full(soil)
    ctx.equal(after[:3], before[:3], label)
    for a, b in zip(after[3], before[3]):
        if isinstance(b, tuple):
            ctx.equal(a[0], b[0], label)
            ctx.same(a[1], b[1], label)
            ctx.same(a[2], b[2], label)
        else:
            ctx.equal(a, b, label)


def others(ctx, soil, got):
    """Everything but the values is kept."""
    ctx.true(got is not soil, "the soil itself was returned")
    ctx.equal((got.name, got.unit_wt, type(got)), (soil.name, soil.unit_wt, type(soil)), "properties of the soil")
    for k in ("density",):
        ctx.equal(getattr(got, k), getattr(soil, k), k)
    for k in ("plas_index", "ocr", "stress_mean", "coef_unif", "diam_mean", "num_cycles", "freq"):
        if hasattr(soil, k):
            ctx.equal(getattr(got, k), getattr(soil, k), k)
    for a, b in ((soil.mod_reduc, got.mod_reduc), (soil.damping, got.damping)):
        if hasattr(a, "strains"):
            ctx.true(a is not b, "curve shared with the nominal soil")
            ctx.same(b.strains, a.strains, "strains")
            ctx.equal((b.name, b.param), (a.name, a.param), "curve")


def sources(soil):
    mr = soil.mod_reduc
    return None if mr is None or np.ndim(values(mr)) == 0 else values(mr), np.atleast_1d(values(soil.damping))


def check_values(ctx, kind, par, soil, got, pair=None):
    """Returns the pair of numbers, where the curves show them."""
    full_par = settings(kind, par)
    lim_mr, lim_d = full_par["limits_mod_reduc"], full_par["limits_damping"]
    mr, d = sources(soil)
    vd = np.atleast_1d(values(got.damping))
    ctx.true(np.all((vd >= lim_d[0]) & (vd <= lim_d[1])), "damping limits", data=vd)
    if mr is None:
        # A linear soil stays linear
        ctx.equal(bool(got.is_nonlinear), bool(soil.is_nonlinear), "linearity")
        vmr, mr0 = np.array([]), np.array([])
    else:
        vmr, mr0 = values(got.mod_reduc), mr
        ctx.equal(vmr.shape, mr.shape, "number of values")
        ctx.true(np.all((vmr >= lim_mr[0]) & (vmr <= lim_mr[1])), "modulus reduction limits", data=vmr)
    ctx.equal(vd.shape, d.shape, "number of damping values")
    z1, z2 = invert(kind, full_par, mr0, d, vmr, vd, lim_mr, lim_d) if pair is None else (np.array([pair[0]]), np.array([pair[1]]))
    out = [np.nan, np.nan]
    for j, z in enumerate((z1, z2)):
        if z.size:
            out[j] = float(np.median(z))
    a = out[0] if np.isfinite(out[0]) else 0.0
    b = out[1] if np.isfinite(out[1]) else 0.0
    want_mr, want_d = moved(kind, full_par, mr0, d, a, b)
    if mr0.size and np.isfinite(out[0]):
        ctx.close(vmr, np.clip(want_mr, *lim_mr), "modulus reduction moved by one number", 1e-7, 1e-9)
    if np.isfinite(out[1]):
        ctx.close(vd, np.clip(want_d, *lim_d), "damping moved by one number", 1e-7, 1e-10)
    ctx.true(not np.any(np.abs([a, b]) > L + 1e-6), "limit of the random numbers", data=out)
    return out


def realisation(ctx, rng, i):
    kind = ("darendeli", "spid")[i % 2]
    spec, par = soil_for(rng, i), model_spec(rng, ("darendeli", "spid")[i % 2])
    soil, model = gen.build_soil(spec), build(kind, par)
    before = full(soil)
    ctx.case(soil=spec, kind=kind, model=par)
    for k, w in settings(kind, par).items():
        if hasattr(model, k):
            ctx.equal(getattr(model, k), w, k)
    pairs = []
    for _ in range(6):
        got = model(soil)
        others(ctx, soil, got)
        pairs.append(check_values(ctx, kind, par, soil, got))
        ctx.see("realisations")
    unchanged(ctx, before, soil, "nominal soil")
    pairs = np.array(pairs)
    for j in range(2):
        if np.all(np.isfinite(pairs[:, j])):
            ctx.true(np.unique(np.round(pairs[:, j], 6)).size > 1, "realisations that differ")
            ctx.see("numbers recovered", len(pairs))
    if abs(par["correlation"]) == 1 and np.all(np.isfinite(pairs)):
        ctx.close(pairs[:, 1], pairs[:, 0] * par["correlation"], "perfect correlation", 1e-4, 1e-4)
    ctx.nontrivial(str(spec), kind, str(par))


def distribution(ctx, rng, i):
    """Pairs follow the truncated bivariate normal."""
    site = gen.ps().site
    kind = ("spid", "darendeli")[i % 2]
    rho = float((-0.5, 0.0, 0.7, -0.9, 0.3, rng.uniform(-0.95, 0.95))[i % 6])
    par = {"correlation": rho, "limits_mod_reduc": [-10, 10], "limits_damping": [-10, 10]}
    x = np.array([1e-4, 1e-3])
    soil = site.SoilType("s", 18.0, site.ModulusReductionCurve("a", x, np.array([0.8, 0.4])), site.DampingCurve("b", x, np.array([0.01, 0.05])))
    model = build(kind, par)
    n = 4000
    ctx.case(kind=kind, model=par, realisations=n)
    z = np.empty((n, 2))
    for k in range(n):
        got = model(soil)
        a, b = invert(kind, settings(kind, par), values(soil.mod_reduc), values(soil.damping), values(got.mod_reduc), values(got.damping), (-10, 10), (-10, 10))
        z[k] = a[0], b[0]
    ctx.true(np.all(np.abs(z) <= L + 1e-6), "limit of the random numbers", data=np.abs(z).max())
    x2, xy, x4, x2y2 = truncated(rho)
    for j in range(2):
        ctx.true(abs(z[:, j].mean()) < 6.5 * np.sqrt(x2 / n), "centre", f"{z[:, j].mean():.4f}")
        ctx.true(abs(np.mean(z[:, j] ** 2) - x2) < 6.5 * np.sqrt((x4 - x2**2) / n), "variance", f"{np.mean(z[:, j] ** 2):.4f}, expected {x2:.4f}")
        ctx.true(abs(np.mean(z[1:, j] * z[:-1, j])) < 6.5 * x2 / np.sqrt(n), "independent realisations")
    ctx.true(abs(np.mean(z[:, 0] * z[:, 1]) - xy) < 6.5 * np.sqrt((x2y2 - xy**2) / n), "correlation", f"{np.mean(z[:, 0] * z[:, 1]):.4f}, expected {xy:.4f}")
    ctx.see("pairs", n)
    ctx.nontrivial(kind, rho)


def percentiles(ctx, rng, i):
    kind = ("darendeli", "spid")[i % 2]
    ps = sorted(float(p) for p in rng.uniform(0.001, 0.999, int(rng.integers(1, 7))))
    if i % 4 == 0:
        ps = [0.05, 0.5, 0.95]
    order = list(rng.permutation(ps)) if i % 3 else ps
    order = [float(p) for p in order]
    par = model_spec(rng, kind, sample_mode="fixed_percentiles", percentiles=tuple(order) if i % 5 == 0 else order)
    spec = soil_for(rng, i)
    soil, model = gen.build_soil(spec), build(kind, par)
    before = full(soil)
    ctx.case(soil=spec, kind=kind, model=par)
    ctx.equal((model.sample_mode, list(model.percentiles)), ("fixed_percentiles", order), "mode")
    curves = {}
    for k in list(rng.permutation(len(order))) + list(range(len(order))):
        got = model(soil, sample_index=int(k))
        others(ctx, soil, got)
        check_values(ctx, kind, par, soil, got, quantile_pair(order[k], par["correlation"]))
        pair = (values(got.mod_reduc) if soil.mod_reduc is not None else np.zeros(1), values(got.damping))
        if order[k] in curves:
            ctx.near(pair[0], curves[order[k]][0], "same percentile, same modulus reduction")
            ctx.near(pair[1], curves[order[k]][1], "same percentile, same damping")
        curves[order[k]] = pair
        ctx.see("percentile realisations")
    for a, b in zip(ps[:-1], ps[1:]):
        ctx.true(np.all(curves[b][0] >= curves[a][0] - 1e-12), "modulus reduction ordered with the percentile")
        rho = par["correlation"]
        sgn = rho + np.sqrt(1 - rho**2)
        if abs(sgn) > 1e-9:
            ctx.true(np.all((curves[b][1] - curves[a][1]) * np.sign(sgn) >= -1e-12), "damping ordered with the percentile")
    # The median leaves the curve within its limits
    par2 = {**par, "percentiles": [0.5]}
    got = build(kind, par2)(soil, sample_index=0)
    full_par = settings(kind, par2)
    ctx.close(values(got.damping), np.clip(values(soil.damping), *full_par["limits_damping"]), "median damping", 1e-9, 1e-12)
    unchanged(ctx, before, soil, "nominal soil")
    # Refusals
    ctx.raises(lambda: model(soil), "missing sample number", ValueError)
    ctx.raises(lambda: model(soil, sample_index=len(order) + 3), "sample number out of range", (IndexError, ValueError))
    ctx.nontrivial(str(spec), kind, str(par))


def refusals(ctx, rng, i):
    v = gen.ps().variation
    kind = ("darendeli", "spid")[i % 2]
    cls = v.DarendeliVariation if kind == "darendeli" else v.SpidVariation
    ctx.case(kind=kind)
    bad = [
        {"sample_mode": str(rng.choice(["percentile", "fixed", "RANDOM", "", "fixed_percentile"]))},
        {"sample_mode": "fixed_percentiles"},
        {"sample_mode": "fixed_percentiles", "percentiles": []},
        {"sample_mode": "fixed_percentiles", "percentiles": None},
    ]
    for p in (0.0, 1.0, -0.1, 1.5, 50.0, float("nan")):
        ps = [0.2, 0.5, 0.9]
        ps.insert(int(rng.integers(4)), p)
        bad.append({"sample_mode": "fixed_percentiles", "percentiles": ps})
    for kw in bad:
        ctx.raises(lambda kw=kw: cls(0.5, **kw), "invalid mode or percentile", ValueError, data=str(kw))
        ctx.see("refusals")
    # In random mode percentiles and sample numbers are not used
    soil = gen.build_soil(gen.soil_spec(rng, nonlinear=True))
    model = cls(float(rng.uniform(-1, 1)))
    ctx.equal(model.sample_mode, "random", "default mode")
    seed = int(rng.integers(1 << 30))
    out = []
    for kw in ({}, {"sample_index": 3}, {"sample_index": None}):
        np.random.seed(seed)
        out.append(values(model(soil, **kw).damping))
    ctx.near(out[1], out[0], "sample number in random mode")
    ctx.near(out[2], out[0], "same random seed")
    # Varied soils vary again, and equal copies give equal realisations
    np.random.seed(seed)
    ctx.near(values(model(copy.deepcopy(soil)).damping), out[0], "copy of the soil")
    ctx.nontrivial(kind, seed)


def deviations(ctx, rng, i):
    """The standard deviations of Darendeli, for every kind of argument."""
    v = gen.ps().variation.DarendeliVariation
    n = int(rng.choice([1, 2, 5, 20]))
    mr = rng.uniform(0, 1, n)
    mr[rng.random(n) < 0.2] = rng.choice([0.0, 0.5, 1.0])
    d = 10 ** rng.uniform(-5, -0.3, n)
    d[rng.random(n) < 0.1] = 0.0
    ctx.case(mr=mr.tolist(), d=d.tolist())
    for name, fn, arg, want in (
        ("modulus", v.calc_std_mod_reduc, mr, np.exp(-4.23) + np.sqrt(np.maximum(0.25 - (mr - 0.5) ** 2, 0) / np.exp(3.62))),
        ("damping", v.calc_std_damping, d, (np.exp(-5) + np.exp(-0.25) * np.sqrt(100 * d)) / 100),
    ):
        for label, a, w in (
            ("array", arg.copy(), want), ("list", arg.tolist(), want), ("tuple", tuple(arg.tolist()), want),
            ("column", arg[:, None].copy(), want[:, None]), ("number", float(arg[0]), want[0]),
            ("zero", 0, want[0] if arg[0] == 0 else (np.exp(-4.23) if name == "modulus" else np.exp(-5) / 100)),
            ("ones", [1, 0] if name == "modulus" else [0, 0], np.full(2, np.exp(-4.23) if name == "modulus" else np.exp(-5) / 100)),
        ):
            before = copy.deepcopy(a)
            # The difference of squares rounds to about 1e-17, the root to about 1e-9
            ctx.close(fn(a), w, f"deviation of the {name}: {label}", rtol=1e-9, atol=3e-9)
            ctx.true(np.array_equal(before, a), f"deviation of the {name}: argument was changed")
            ctx.see("deviations", n)
    m = v(float(rng.uniform(-1, 1)))
    ctx.same(m.calc_std_damping(d), v.calc_std_damping(d), "deviation of an instance")
    ctx.nontrivial(i, n)


MONITORS = [
    Monitor("deviations", deviations, 60, 2000, {"deviations": 2000}),
    Monitor("realisation", realisation, 200, 8000, {"realisations": 1000, "numbers recovered": 1000}),
    Monitor("distribution", distribution, 12, 240, {"pairs": 40000}),
    Monitor("percentiles", percentiles, 160, 6000, {"percentile realisations": 800}),
    Monitor("refusals", refusals, 24, 400, {"refusals": 200}),
]
