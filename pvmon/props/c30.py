"""Random seed profiles, layering-rate parameters and depth distributions (continuous,
degenerate, reaching above, inside and below the profile, and non-physical). Every
realisation is compared layer by layer with the seed by depth; interface counts in depth
bins over many realisations are tested against the Poisson process of the documented rate
(limit 6.5 standard deviations). Seeds are used fresh and after analyses. Non-trivial:
each distinct seed and model."""
import numpy as np
from scipy import stats

from .. import gen
from ..core import Monitor
from .c15 import upset
from .c27 import run

ASSUMPTIONS = ["statistical limits of 6.5 standard deviations: about 1e-10 per test on correct code"]


def state(prof):
    return [
        (la.soil_type, la.thickness, la.initial_shear_vel, la.damping_min, la.depth, float(np.max(la.shear_mod)), float(np.max(la.damping)))
        for la in prof
    ] + [prof.wt_depth]


def seed_profile(rng, i, max_thick=40):
    spec = gen.profile_spec(rng, max_thick=max_thick)
    if i % 5 == 4:
        # Sheets of a few centimetres between the layers
        for la in spec["layers"][:-1]:
            if rng.random() < 0.6:
                la["thickness"] = float(rng.uniform(0.01, 0.15))
    prof = gen.build_profile(spec)
    if i % 3 == 0:
        upset(rng, prof, gen.ts_spec(rng, n=128))
    return spec, prof


def at(spec, depth):
    """Layers of the seed at a depth: one, or both at an interface."""
    top, found = 0.0, []
    ls = spec["layers"][:-1]
    for la in ls:
        base = top + la["thickness"]
        if top - 1e-9 * max(1, top) <= depth <= base + 1e-9 * max(1, base):
            found.append(la)
        top = base
    return found or [ls[-1]]


def same_props(ctx, prof, spec, layer, wants, label):
    """The layer takes its properties from one of the seed's layers."""
    soils = {id(la.soil_type): la for la in prof}
    for w in wants:
        dmin = w["dmin"]
        src = [la for la in prof if la.initial_shear_vel == w["vs"] and (dmin is None or la.damping_min == dmin)]
        for la in src:
            if layer.soil_type == la.soil_type and layer.initial_shear_vel == la.initial_shear_vel and layer.damping_min == la.damping_min:
                return
    ctx.fail(label, f"{layer!r} takes its properties from none of {wants}", known=len(soils))


def check_base(ctx, spec, prof, varied, depth, thick=True):
    h, b = varied[-1], prof[-1]
    ctx.true(h.soil_type == b.soil_type and h.initial_shear_vel == b.initial_shear_vel and h.damping_min == b.damping_min, "half-space")
    ctx.close(h.depth, depth, "depth to bedrock", 1e-9, 1e-9)
    ctx.close(sum(la.thickness for la in varied[:-1]), depth, "sum of the thicknesses", 1e-9, 1e-9)
    ctx.equal(varied.wt_depth, spec["wt_depth"], "water table")
    ctx.true(all(la is not lb for la in varied for lb in prof), "layers shared with the seed")
    top = 0.0
    for la in varied:
        ctx.close(la.depth, top, "top depth", 1e-9, 1e-9)
        top += la.thickness
        # Current state is the initial one
        ctx.close(np.max(la.shear_vel), la.initial_shear_vel, "current velocity", 1e-12)


def thickness(ctx, rng, i):
    v = gen.ps().variation
    spec, prof = seed_profile(rng, i)
    kw = {}
    if i % 2:
        kw = {"c_1": float(rng.uniform(1, 30)), "c_2": float(rng.choice([-0.89, -0.5, -0.7, 0.3])), "c_3": float(rng.uniform(0.5, 6))}
    model = v.ToroThicknessVariation(**kw)
    for k, w in {"c_1": 10.86, "c_2": -0.89, "c_3": 1.98, **kw}.items():
        ctx.equal(getattr(model, k), w, f"parameter {k}")
    total = sum(la["thickness"] for la in spec["layers"][:-1])
    ctx.case(profile=spec, model=kw)
    before = state(prof)
    for _ in range(4):
        varied = model(prof)
        check_base(ctx, spec, prof, varied, total)
        ctx.equal(varied[-1].thickness, 0, "half-space thickness")
        ctx.true(len(varied) >= 2, "layers above the half-space")
        top = 0.0
        for la in varied[:-1]:
            ctx.true(la.thickness > 0, "positive thickness", f"{la.thickness}")
            same_props(ctx, prof, spec, la, at(spec, top + la.thickness / 2), "properties at the mid-depth")
            top += la.thickness
            ctx.see("varied layers")
        ctx.equal([id(x) for x in varied], [id(x) for x in varied.layers], "layer list")
    ctx.true(state(prof) == before, "seed after the variation")
    ctx.nontrivial(spec, kw)


def rate(ctx, rng, i):
    """Interfaces are a Poisson process of the documented rate."""
    v = gen.ps().variation
    c1, c2, c3 = 10.86, -0.89, 1.98
    if i % 2:
        c1, c2, c3 = float(rng.uniform(1, 30)), float(rng.choice([-0.89, -0.5, -0.7, 0.3])), float(rng.uniform(0.5, 4))
    model = v.ToroThicknessVariation(c1, c2, c3)

    def cum(d):
        return c3 / (c2 + 1) * ((d + c1) ** (c2 + 1) - c1 ** (c2 + 1))

    # A depth with a handful of interfaces
    depth = 5.0
    while cum(depth) < 8 and depth < 400:
        depth *= 1.3
    depth *= float(rng.uniform(0.8, 1.2))
    n = 500
    ctx.case(model=(c1, c2, c3), depth=depth, realisations=n)
    edges = depth * np.array([0, 0.15, 0.4, 0.7, 1])
    counts = np.zeros((n, 4))
    for k in range(n):
        rows = list(model.iter_thickness(depth))
        t = np.array([r[0] for r in rows])
        m = np.array([r[1] for r in rows])
        ends = np.cumsum(t)
        if not k:
            ctx.true(np.all(t > 0), "positive thicknesses")
        ctx.close(ends[-1], depth, "total depth", 1e-9)
        ctx.close(m, ends - t / 2, "mid-depths", 1e-9, 1e-9)
        # Thicknesses above an interface; the last is cut at the total depth
        counts[k] = np.histogram(ends[:-1], edges)[0]
    want = np.diff([cum(e) for e in edges])
    for b in range(4):
        mean = n * want[b]
        z = (counts[:, b].sum() - mean) / np.sqrt(mean)
        ctx.true(abs(z) < 6.5, "rate of interfaces", f"{counts[:, b].mean():.3f} in bin {b}, expected {want[b]:.3f}")
    # Independent counts with the dispersion of a Poisson process
    mean = cum(depth)
    q = np.sum((counts.sum(1) - mean) ** 2) / mean
    sd = np.sqrt(n * (2 + 1 / mean))
    ctx.true(abs(q - n) < 6.5 * sd, "dispersion of the interface counts", f"{q / n:.3f}")
    r = np.mean((counts[:, 0] - want[0]) * (counts[:, 2] - want[2])) / np.sqrt(want[0] * want[2])
    ctx.true(abs(r) < 6.5 / np.sqrt(n), "independence between depths", f"{r:.3f}")
    ctx.see("interface counts", counts.sum())
    ctx.nontrivial(c1, c2, c3, depth)


def increments(ctx, rng, i):
    """Between interfaces the integrated rate grows by unit exponential steps."""
    v = gen.ps().variation
    c1, c2, c3 = float(rng.uniform(1, 30)), float(rng.uniform(0.05, 0.6)), float(rng.uniform(0.5, 4))
    if i % 3 == 0:
        c1, c2, c3 = 10.86, -0.89, 1.98
    model = v.ToroThicknessVariation(c1, c2, c3)
    n = 40000
    depth = 5000.0 if i % 3 == 0 else (n * 1.05 * (c2 + 1) / c3 + c1 ** (c2 + 1)) ** (1 / (c2 + 1)) - c1
    ctx.case(model=(c1, c2, c3), depth=depth)
    got, runs = [], 0
    while sum(map(len, got)) < n:
        ends = np.cumsum([t for t, _ in model.iter_thickness(depth)])[:-1]
        got.append(np.diff(c3 / (c2 + 1) * (np.r_[0, ends] + c1) ** (c2 + 1)))
        runs += 1
    if runs == 1:
        x = np.concatenate(got)
        # The steps are exponential with a unit mean
        z = (np.mean(x) - 1) * np.sqrt(x.size)
        ctx.true(abs(z) < 6.5, "mean step of the integrated rate", f"{np.mean(x):.4f}")
        u = np.sort(1 - np.exp(-x))
        k = np.arange(1, u.size + 1) / u.size
        d = max(np.max(k - u), np.max(u - k + 1 / u.size))
        ctx.true(d < np.sqrt(-np.log(0.5e-9) / 2 / u.size), "distribution of the steps", f"{d:.4f}")
        for lo, hi in ((0, 8e-4), (0, 1e-3), (0, 1e-2), (0.01, 0.05), (4, 6), (6, np.inf)):
            share = np.exp(-lo) - np.exp(-hi)
            count = np.sum((x >= lo) & (x < hi))
            tail = min(stats.binom.cdf(count, x.size, share), stats.binom.sf(count - 1, x.size, share))
            ctx.true(tail > 1e-11, "small and large steps", f"{count} of {x.size * share:.1f} in {lo}-{hi}")
        r = np.mean((x[1:] - 1) * (x[:-1] - 1))
        ctx.true(abs(r) < 6.5 / np.sqrt(x.size), "independent steps", f"{r:.4f}")
    # Steps cut off by the total depth make the mean of several runs short; their count is Poisson
    mean = runs * (c3 / (c2 + 1) * ((depth + c1) ** (c2 + 1) - c1 ** (c2 + 1)))
    m = sum(map(len, got))
    ctx.true(abs(m - mean) < 7 * np.sqrt(mean), "number of interfaces", f"{m}, expected {mean:.0f}")
    ctx.see("steps", m)
    ctx.nontrivial(c1, c2, c3)


class Fixed:
    """A distribution that gives the listed depths."""

    def __init__(self, *d):
        self.d = list(d)

    def rvs(self, *a, **k):
        return self.d.pop(0) if len(self.d) > 1 else self.d[0]


def halfspace(ctx, rng, i):
    v = gen.ps().variation
    spec, prof = seed_profile(rng, i)
    total = sum(la["thickness"] for la in spec["layers"][:-1])
    last = spec["layers"][-2]["thickness"]
    tops = np.r_[0, np.cumsum([la["thickness"] for la in spec["layers"][:-1]])]
    ctx.case(profile=spec)
    before = state(prof)
    depths = [
        float(rng.uniform(0, total)), float(rng.uniform(0, total)), total, total + float(rng.uniform(0, last)),
        total + float(rng.uniform(0, 5 * last)), total + last, total * float(rng.uniform(1, 3)),
        float(tops[int(rng.integers(1, tops.size))]), float(rng.uniform(0, min(0.1, total))),
    ]
    for d in depths:
        if not d > 0:
            continue
        varied = v.HalfSpaceDepthVariation(Fixed(d) if rng.random() < 0.5 else stats.norm(loc=d, scale=0))(prof)
        check_base(ctx, spec, prof, varied, d)
        ls = list(varied)[:-1]
        top = 0.0
        for la in ls:
            ctx.true(la.thickness >= 0, "thickness")
            if la.thickness > 1e-9:
                same_props(ctx, prof, spec, la, at(spec, min(top + la.thickness / 2, total - last / 2) if top + la.thickness / 2 > total else top + la.thickness / 2), "properties above the half-space")
            if top > total - last - 1e-9:
                ctx.true(la.thickness <= last * (1 + 1e-9), "sub-layer thickness", f"{la.thickness} of {last}")
            top += la.thickness
        # Layers that are not reached stay as they were
        for k, la in enumerate(spec["layers"][:-2]):
            if tops[k + 1] < d - 1e-9:
                ctx.close(varied[k].thickness, la["thickness"], "thickness of an unchanged layer", 1e-12)
        # The whole seed is held when the bedrock gets deeper
        ctx.see("depths beyond the profile", d > total)
        ctx.see("depths within the profile", d < total)
    for d in (0.0, -3.0, -total, float("nan")):
        ctx.raises(lambda d=d: v.HalfSpaceDepthVariation(Fixed(d))(prof), "non-physical depth", data=d)
    ctx.true(state(prof) == before, "seed after the variation")
    ctx.see("refusals", 4)
    ctx.nontrivial(spec)


def distribution(ctx, rng, i):
    """Sampled depths follow the distribution that was given."""
    v = gen.ps().variation
    spec, prof = seed_profile(rng, i)
    total = sum(la["thickness"] for la in spec["layers"][:-1])
    dist = (
        stats.uniform(loc=total * 0.4, scale=total), stats.lognorm(s=0.3, scale=total), stats.uniform(loc=total, scale=0.2 * total)
    )[i % 3]
    n = 400
    varier = v.HalfSpaceDepthVariation(dist)
    got = np.array([varier(prof)[-1].depth for _ in range(n)])
    ctx.case(profile=spec, distribution=str(dist.dist.name), realisations=n)
    # Kolmogorov-Smirnov at a level of about 1e-9
    x = np.sort(dist.cdf(got))
    k = np.arange(1, n + 1) / n
    d = max(np.max(k - x), np.max(x - k + 1 / n))
    ctx.true(d < np.sqrt(-np.log(0.5e-9) / 2 / n), "distribution of the depths", f"{d:.3f}")
    ctx.true(np.unique(got).size > n * 0.99, "independent depths")
    ctx.see("sampled depths", n)
    ctx.nontrivial(spec)


def analysed(ctx, rng, i):
    """Varying a profile after an analysis gives the same as before it."""
    v = gen.ps().variation
    from .c27 import analysis

    spec = analysis(rng, 1)
    last = spec["profile"]["layers"][-2]
    last["thickness"] = last["thickness"] or 1.0
    prof = gen.build_profile(spec["profile"])
    total = sum(la["thickness"] for la in spec["profile"]["layers"][:-1])
    d = total * float(rng.uniform(0.2, 2))
    model, half = v.ToroThicknessVariation(), v.HalfSpaceDepthVariation(Fixed(d))
    seed = int(rng.integers(1 << 30))
    ctx.case(**spec, depth=d)

    def both(p):
        np.random.seed(seed)
        a = model(p)
        return [(la.thickness, la.initial_shear_vel, float(np.max(la.shear_vel)), la.damping_min, la.soil_type.name, float(np.max(la.damping))) for x in (a, half(p)) for la in x]

    want = both(prof)
    used = run(spec).profile
    ctx.near(np.array([w[:4] + w[5:] for w in both(used)]), np.array([w[:4] + w[5:] for w in want]), "variation after an analysis")
    ctx.see("variations after an analysis")
    ctx.nontrivial(spec, d)


MONITORS = [
    Monitor("thickness", thickness, 120, 4000, {"varied layers": 1500}),
    Monitor("rate", rate, 24, 500, {"interface counts": 10000}),
    Monitor("increments", increments, 6, 120, {"steps": 200000}),
    Monitor("half-space depth", halfspace, 120, 4000, {"depths beyond the profile": 200, "depths within the profile": 200, "refusals": 300}),
    Monitor("depth distribution", distribution, 12, 300, {"sampled depths": 4000}),
    Monitor("analysed", analysed, 24, 800, {"variations after an analysis": 20}),
]
