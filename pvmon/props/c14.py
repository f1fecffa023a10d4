"""Random profiles (shallow and deep, half-space only, after nonlinear analyses, after
edits) whose summaries are recomputed from the layers. Non-trivial: at least two
velocities."""
import numpy as np

from .. import gen
from ..core import Monitor
from ..wavework import spec_props


def taverage(thick, vs, depth):
    """Time-averaged velocity with the last layer continuing forever."""
    t, z = 0.0, 0.0
    for h, v in zip(thick[:-1], vs[:-1]):
        if z + h >= depth:
            return depth / (t + (depth - z) / v)
        t, z = t + h / v, z + h
    return depth / (t + (depth - z) / vs[-1])


def judge(ctx, rng, prof, spec, props, label, current=None):
    thick, vs, rho, damp = props
    cur = vs if current is None else current
    kw = dict(rtol=1e-11, atol=1e-15)
    ctx.close(prof.vs30(), taverage(thick, vs, 30.0), f"{label}: vs30", **kw)
    total = sum(thick[:-1])
    depths = list(rng.uniform(0.01, total * 1.5 + 40, 6)) + [30.0, 30, total or 1.0, total + 1e-3]
    depths += [d for d in np.cumsum(thick[:-1])][:4]
    for d in depths:
        ctx.close(prof.time_average_vel(d), taverage(thick, cur, d), f"{label}: time-averaged velocity", depth=d, **kw)
        ctx.see("time averages")
    ctx.close(prof.travel_time, np.array(thick) / np.array(cur), f"{label}: travel time", **kw)
    ctx.close(prof.slowness, 1 / np.array(vs), f"{label}: slowness", **kw)
    ctx.close(prof.initial_shear_vel, np.array(vs), f"{label}: small-strain velocity", **kw)
    att = 2 * np.array(damp) * np.array(thick) / np.array(vs)
    ctx.close(np.array([la.incr_site_atten for la in prof]), att, f"{label}: layer attenuation", **kw)
    ctx.close(float(prof.site_attenuation()), att.sum(), f"{label}: site attenuation", **kw)
    for la, t, v in zip(prof, thick, cur):
        ctx.close(la.travel_time, t / v, f"{label}: layer travel time", **kw)
    ctx.see("profiles judged")


def summaries(ctx, rng, i):
    spec = gen.profile_spec(rng, n=int(rng.integers(1, 9)), max_thick=[5, 40][i % 2])
    if i % 17 == 0:
        spec["layers"] = spec["layers"][-1:]
    soils = [gen.build_soil(s) for s in spec["soils"]]
    prof = gen.build_profile(spec, soils)
    props = spec_props(spec, soils)
    ctx.case(profile=spec)
    judge(ctx, rng, prof, spec, props, "as built")
    thick, vs, rho, damp = props
    # After a nonlinear history: current velocities differ, small-strain ones do not
    cur = []
    for la, v in zip(prof, vs):
        la.strain = float(10 ** rng.uniform(-5, -2))
        cur.append(v * float(np.sqrt(la.shear_mod_reduc)))
    judge(ctx, rng, prof, spec, props, "strained", cur)
    prof.reset_layers()
    judge(ctx, rng, prof, spec, props, "reset")
    k = int(rng.integers(len(prof)))
    prof[k].thickness = thick[k] = float(rng.uniform(0.5, 20))
    prof[-1].initial_shear_vel = vs[-1] = float(rng.uniform(500, 2000))
    prof[0].damping_min = damp[0] = float(rng.uniform(0.001, 0.1))
    judge(ctx, rng, prof, spec, (thick, vs, rho, damp), "edited")
    if len(set(vs)) > 1:
        ctx.nontrivial(spec)


def invariance(ctx, rng, i):
    """Splitting layers, or a uniform profile."""
    spec = gen.profile_spec(rng, max_thick=20)
    split = {**spec, "layers": []}
    for la in spec["layers"][:-1]:
        m = int(rng.integers(1, 4))
        split["layers"] += [{**la, "thickness": la["thickness"] / 4 * x} for x in ((4,), (1, 3), (2, 1, 1))[m - 1]]
    if i % 2:
        split["layers"].append({**spec["layers"][-1], "thickness": 5.0})
        spec["layers"][-1]["thickness"] = 5.0
    split["layers"].append({**spec["layers"][-1], "thickness": 0.0 if i % 2 else spec["layers"][-1]["thickness"]})
    a, b = gen.build_profile(spec), gen.build_profile(split)
    ctx.case(profile=spec, split=[la["thickness"] for la in split["layers"]])
    ctx.close(b.vs30(), a.vs30(), "splitting changes vs30", 1e-11)
    ctx.close(float(b.site_attenuation()), float(a.site_attenuation()), "splitting changes the site attenuation", 1e-11)
    for d in rng.uniform(0.1, 100, 5):
        ctx.close(b.time_average_vel(d), a.time_average_vel(d), "splitting changes the time average", 1e-11)
    ctx.close(b.travel_time.sum(), a.travel_time.sum(), "splitting changes the travel time", 1e-11)
    uni = {**spec, "layers": [{**la, "vs": 321.0} for la in spec["layers"]]}
    u = gen.build_profile(uni)
    ctx.close(u.vs30(), 321.0, "uniform profile: vs30", 1e-11)
    for d in rng.uniform(0.1, 100, 5):
        ctx.close(u.time_average_vel(d), 321.0, "uniform profile: time average", 1e-11)
    ctx.see("invariances")
    ctx.nontrivial(spec)


def rayleigh(ctx, rng, i):
    """The simplified Rayleigh procedure, layer by layer from the base."""
    spec = gen.profile_spec(rng, n=int(rng.integers(1, 9)))
    if i % 2:
        spec["layers"][-1]["thickness"] = float(rng.uniform(1, 20)) if i % 4 == 1 else 0.0
    prof = gen.build_profile(spec)
    ls = spec["layers"]
    ctx.case(profile=spec)
    if i % 3 == 0:
        for la in prof:
            la.strain = float(10 ** rng.uniform(-5, -2))

    def by_hand(ls):
        tops = np.cumsum([0.0] + [la["thickness"] for la in ls])
        below, num, den = 0.0, 0.0, 0.0
        for k in range(len(ls) - 1, -1, -1):
            h, v = ls[k]["thickness"], ls[k]["vs"]
            zm = tops[k] + h / 2
            above = below + zm * h / v**2
            num += 4 * h * zm**2 / v**2
            den += h * (above + below) ** 2
            below = above
        return 4 * tops[-1] * np.sqrt(num / den) / (2 * np.pi)

    ctx.close(float(prof.simplified_rayliegh_vel()), by_hand(ls), "simplified Rayleigh velocity", 1e-10)
    # Uniform ground: the shape is parabolic, which gives the velocity within 0.7 %
    v = float(rng.uniform(100, 800))
    n = int(rng.integers(100, 200))
    uni = gen.build_profile({**spec, "layers": [{**ls[0], "vs": v, "thickness": 0.5}] * n + [{**ls[-1], "thickness": 0.0}]})
    ctx.close(float(uni.simplified_rayliegh_vel()), v * np.sqrt(2.5) * 2 / np.pi, "simplified Rayleigh velocity of uniform ground", 1e-3)
    ctx.see("Rayleigh velocities", 2)
    ctx.nontrivial(spec)


MONITORS = [
    Monitor("rayleigh", rayleigh, 80, 2000, {"Rayleigh velocities": 100}),
    Monitor("summaries", summaries, 300, 9000, {"time averages": 5000, "profiles judged": 800}),
    Monitor("invariance", invariance, 200, 5000, {"invariances": 150}),
]
