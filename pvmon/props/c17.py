"""Random curves (2 to 40 points, even and uneven spacing, monotone and not, beyond
their limits, published models, several columns) evaluated at zero, tiny, knot, between
and far-out strains as scalars, lists and arrays, before and after histories of point
updates; every value is recomputed by linear interpolation in ln(strain). Non-trivial:
an evaluation strictly inside the strain range."""
import bisect
import math

import numpy as np

from .. import gen
from ..core import Monitor, alike

DEFAULT = {"mod_reduc": (0.001, 1), "damping": (0, 0.49)}


def value(strains, values, s, limits):
    """Log-linear interpolation of one strain, by definition."""
    s = max(float(s), 1e-9)
    if s <= strains[0]:
        v = values[0]
    elif s >= strains[-1]:
        v = values[-1]
    else:
        k = min(max(bisect.bisect_right(list(strains), s) - 1, 0), len(strains) - 2)
        x0, x1 = math.log(strains[k]), math.log(strains[k + 1])
        v = values[k] + (values[k + 1] - values[k]) * (math.log(s) - x0) / (x1 - x0)
    return min(max(v, limits[0]), limits[1])


def points(rng, param):
    if rng.random() < 0.7:
        return gen.curve_points(rng, param, int(rng.integers(2, 41)))
    n = int(rng.integers(2, 25))
    s = np.sort(10 ** rng.uniform(-8.5, 0.3, n))
    while np.any(np.diff(np.log(s)) < 1e-3):
        s = np.sort(10 ** rng.uniform(-8.5, 0.3, n))
    top = 1.0 if param == "mod_reduc" else 0.45
    v = rng.uniform(-0.1 * top, 1.3 * top, n)
    if rng.random() < 0.5:
        v = np.sort(v)
        v = v[::-1] if param == "mod_reduc" else v
    return s, v


def probe(rng, strains):
    inside = np.exp(rng.uniform(np.log(strains[0]), np.log(strains[-1]), 5))
    return np.r_[
        0.0, 1e-300, 1e-12, 1e-9, 1e-8, strains[0] / 3, strains[0], strains[-1], strains[-1] * 3, 0.5, 3.0, 100.0,
        strains[int(rng.integers(len(strains)))], inside,
    ]


def judge(ctx, rng, curve, strains, values, limits, label):
    xs = probe(rng, strains)
    rng.shuffle(xs)
    want = np.array([value(strains, values, s, limits) for s in xs])
    scale = np.abs(values).max() + 1e-3
    kw = dict(rtol=1e-10, atol=1e-12 * scale)
    arr = curve(xs)
    ctx.true(np.all(np.isfinite(arr)), f"{label}: finite")
    ctx.close(arr, want, f"{label}: array of strains", strains=xs, **kw)
    ctx.true(np.all((arr >= limits[0]) & (arr <= limits[1])), f"{label}: outside of the limits")
    one = [curve(float(s)) for s in xs]
    for o, a in zip(one, arr):
        ctx.equal(np.ndim(o), 0, f"{label}: scalar strain")
        ctx.true(alike(o, a), f"{label}: alone and inside an array differ", alone=o, array=a)
    ctx.near(curve(list(xs)), arr, f"{label}: list of strains")
    ctx.near(curve(xs[:1]), arr[:1], f"{label}: array of one strain")
    ctx.near(curve(xs.reshape(2, -1) if xs.size % 2 == 0 else xs[:-1].reshape(2, -1)).ravel(), arr[: xs.size // 2 * 2], f"{label}: table of strains")
    # The result belongs to the caller
    arr *= 0
    ctx.close(curve(xs), want, f"{label}: evaluated again", **kw)
    # At every point of the curve
    ctx.close(curve(strains), np.clip(values, *limits), f"{label}: at its points", rtol=1e-9, atol=1e-11 * scale)
    ctx.see("strains evaluated", xs.size)
    ctx.see("strains inside the range", np.sum((xs > strains[0]) & (xs < strains[-1])))


def evaluate(ctx, rng, i):
    site = gen.ps().site
    param = ["mod_reduc", "damping"][i % 2]
    cls = [site.ModulusReductionCurve, site.DampingCurve][i % 2]
    s, v = points(rng, param)
    limits = None
    if rng.random() < 0.4:
        a = rng.uniform(0, 0.3)
        limits = (float(a), float(a + rng.uniform(0.05, 0.6)))
    if rng.random() < 0.1:
        name = str(rng.choice(["EPRI (93), PI=30", "Idriss (1990), Clay", "GEI (83), >500 ft", "Seed & Idriss, Sand Mean"]))
        curve = site.NonlinearCurve.from_published(name, param)
        s, v, limits = np.array(curve.strains), np.array(curve.values), None
        cs, cv = s, v
    else:
        cs, cv = (s.copy(), v.copy()) if rng.random() < 0.7 else (list(s), list(v))
        curve = cls("c", cs, cv, limits) if rng.random() < 0.5 else cls(name="c", strains=cs, values=cv, limits=limits)
    lim = limits or DEFAULT[param]
    ctx.case(param=param, strains=s, values=v, limits=limits)
    ctx.equal(curve.param, param, "parameter")
    ctx.same(curve.strains, s, "strains")
    ctx.same(curve.values, v, "values")
    judge(ctx, rng, curve, s, v, lim, "as built")
    # The caller's arrays are not the curve's
    if isinstance(cs, np.ndarray) and curve.name == "c":
        cs *= 2
        cv *= 0.5
        judge(ctx, rng, curve, s, v, lim, "after the caller's arrays changed")
    for _ in range(int(rng.integers(1, 4))):
        u = rng.random()
        if u < 0.4:
            w = rng.random()
            if w < 0.3:
                v = v[::-1].copy()
            elif w < 0.5:
                # By very little
                v = v * (1 + 10 ** rng.uniform(-12, -4) * rng.uniform(-1, 1, v.size))
            else:
                v = v * rng.uniform(0.5, 1.2, v.size)
            given = v.copy()
            curve.values = given if rng.random() < 0.5 else list(v)
            given *= 3
            what = "values updated"
        elif u < 0.7:
            # Strains below 1e-9 are evaluated at 1e-9
            if rng.random() < 0.3:
                # By very little: a small factor, or the small strains alone
                s = s * (1 + 10 ** rng.uniform(-12, -4)) if rng.random() < 0.5 else s + min(1e-9, 0.4 * np.diff(s).min())
            else:
                s = s * np.exp(rng.uniform(max(-1.0, np.log(1.1e-9 / s[0])), 1))
            curve.strains = s.copy()
            what = "strains updated"
        else:
            s, v = points(rng, param)
            if rng.random() < 0.5:
                curve.strains = s
                curve.values = v
            else:
                curve.values = v
                curve.strains = s
            what = "points replaced"
        ctx.same(curve.strains, s, f"{what}: strains")
        ctx.same(curve.values, v, f"{what}: values")
        judge(ctx, rng, curve, s, v, lim, what)
        ctx.see("updates")
    ctx.nontrivial(s, v, limits)


def columns(ctx, rng, i):
    """Curves with one column of values per frequency."""
    site = gen.ps().site
    param = ["mod_reduc", "damping"][i % 2]
    cls = [site.ModulusReductionCurve, site.DampingCurve][i % 2]
    s, v = gen.curve_points(rng, param, int(rng.integers(3, 20)))
    m = int(rng.integers(2, 6))
    if m == s.size:
        m += 1
    table = v[:, None] * rng.uniform(0.5, 1.2, m)
    ctx.case(param=param, strains=s, values=table)
    curve = cls("c", s, table)
    for x in probe(rng, s):
        got = curve(float(x))
        want = np.array([value(s, table[:, k], x, DEFAULT[param]) for k in range(m)])
        ctx.close(got, want, "values per frequency", 1e-10, 1e-13, strain=x)
        ctx.see("columns evaluated", m)
    each = 10 ** rng.uniform(np.log10(s[0]) - 1, np.log10(s[-1]) + 1, m)
    ctx.close(curve(each), [value(s, table[:, k], each[k], DEFAULT[param]) for k in range(m)], "a strain per frequency", 1e-10, 1e-13)
    ctx.see("strains per frequency")
    table2 = table * 0.5
    curve.values = table2
    x = float(np.sqrt(s[0] * s[-1]))
    ctx.close(curve(x), [value(s, table2[:, k], x, DEFAULT[param]) for k in range(m)], "values per frequency updated", 1e-10, 1e-13)
    ctx.nontrivial(s, table)


MONITORS = [
    Monitor("evaluate", evaluate, 600, 20000, {"strains inside the range": 5000, "updates": 600}),
    Monitor("columns", columns, 120, 3000, {"columns evaluated": 2000, "strains per frequency": 120}),
]
