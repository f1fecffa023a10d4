"""Random profiles are copied and discretized as built, after analyses (equivalent
linear, imposed strains of any size) and after edits. The result is compared with the
source point by point in depth (velocity, density, minimum damping, soil, stress, pore
pressure), by travel time and attenuation, and by the transfer functions of a linear
analysis; sub-layer counts are recomputed from the wavelength rule. Snapshots of either
profile are compared after the other one is edited, extended or analysed. Non-trivial:
a source with at least two different layers."""
import numpy as np

from .. import gen
from ..core import Monitor
from ..wavework import spec_props, warm  # noqa: F401


def snapshot(prof):
    out = []
    for la in prof:
        out.append([
            la.thickness, la.initial_shear_vel, la.damping_min, la.unit_wt, la.depth, la.stress_vert(),
            np.array(la.shear_mod), np.array(la.damping), np.array(la.strain), np.array(la.shear_vel),
            np.nan if la.strain_max is None else la.strain_max,
        ])
    return out, prof.wt_depth


def unchanged(ctx, prof, snap, label):
    now = snapshot(prof)
    ctx.equal(now[1], snap[1], f"{label}: water table")
    ctx.equal(len(now[0]), len(snap[0]), f"{label}: number of layers")
    for a, b in zip(now[0], snap[0]):
        for x, y in zip(a, b):
            ctx.same(x, y, label)


def upset(rng, prof, motion_spec):
    """Put the profile through a nonlinear history."""
    p = gen.ps().propagation
    kind = str(rng.choice(["strain", "eql", "array"]))
    if kind == "strain":
        for la in prof:
            la.strain = float(10 ** rng.uniform(-5, -1.5))
            la.strain_max = la.strain / 0.65
    elif kind == "array":
        for la in prof:
            la.strain = 10 ** rng.uniform(-5, -1.5, 7)
    else:
        mot = gen.build_motion(motion_spec)
        try:
            p.EquivalentLinearCalculator(0.65, 0.1, 5)(mot, prof, prof.location("outcrop", index=-1))
        except RuntimeError:
            pass
    return kind


def at(prof, z):
    """Layer at a depth by definition."""
    top = 0.0
    for la in list(prof)[:-1]:
        if z < top + la.thickness:
            return la, z - top
        top += la.thickness
    return prof[-1], z - top


def tf_of(prof, freqs, fields):
    p = gen.ps().propagation
    mot = gen.ps().motion.Motion(freqs)
    c = p.LinearElasticCalculator()
    li = prof.location("outcrop", index=-1)
    c(mot, prof, li)
    return [c.calc_accel_tf(li, prof.location(f, depth=z)) for f, z in fields]


def curved(soil):
    """A soil with a curve for either property."""
    return hasattr(soil.mod_reduc, "strains") or hasattr(soil.damping, "strains")


def discretized(ctx, rng, i):
    site = gen.ps().site
    spec = gen.profile_spec(rng, n=int(rng.integers(1, 7)), max_thick=25)
    if i % 8 == 1:
        # A basin: hundreds of divisions
        spec["layers"][0]["thickness"] = float(rng.integers(60, 160))
        spec["layers"][0]["vs"] = float(rng.uniform(80, 250))
    elif i % 8 == 5:
        # Thin sheets
        for la in spec["layers"]:
            la["thickness"] *= 2.0**-5
        ctx.see("thin profiles")
    elif i % 8 == 3:
        # Down to kilometres
        for la in spec["layers"]:
            la["thickness"] = float(rng.integers(50, 700))
            la["vs"] = float(rng.uniform(700, 3000))
        ctx.see("deep profiles")
    if i % 4 == 0:
        spec["layers"][-1]["thickness"] = 0.0
    if i % 5 == 2:
        # Layers without damping
        for la in spec["layers"]:
            la["dmin"] = 0.0 if rng.random() < 0.6 else la["dmin"]
    soils = [gen.build_soil(s) for s in spec["soils"]]
    src = gen.build_profile(spec, soils)
    thick, vs, rho, damp = [list(x) for x in spec_props(spec, soils)]
    st = [soils[la["soil"]] for la in spec["layers"]]
    mspec = gen.ts_spec(rng, n=128, dt=0.01, pga=float(10 ** rng.uniform(-2.5, -0.6)), fa=False)
    how = ["copy", "auto"][i % 2]
    max_freq, frac = float(rng.uniform(2, 60)), float(rng.choice([0.2, 1 / 3, rng.uniform(0.1, 0.5), rng.uniform(0.5, 2)]))
    only = bool(rng.random() < 0.5)
    log = []
    for _ in range(int(rng.integers(0, 3))):
        if rng.random() < 0.7:
            log.append(upset(rng, src, mspec))
        else:
            k = int(rng.integers(len(src)))
            src[k].initial_shear_vel = vs[k] = float(rng.uniform(150, 900))
            src[k].damping_min = damp[k] = float(rng.uniform(0.001, 0.08))
            if k < len(src) - 1:
                src[k].thickness = thick[k] = float(rng.integers(100, 9000)) / 1024
            log.append(f"edit {k}")
    if how == "auto" and rng.random() < 0.3:
        # Slightly more, or less, than a multiple of the requested thickness
        k = int(rng.integers(len(src) - 1))
        factor = int(rng.integers(1, 6)) + float(rng.choice([-1, 1, 1]) * 10 ** rng.uniform(-6, -1.5))
        src[k].thickness = thick[k] = float(vs[k] / max_freq * frac * factor)
        log.append(f"multiple {k}")
    if how == "auto" and rng.random() < 0.2:
        # High frequencies, and thin layers
        max_freq = float(rng.uniform(100, 400))
        for k in range(len(src) - 1):
            src[k].thickness = thick[k] = float(vs[k] / max_freq * frac * rng.uniform(0.4, 3 if k % 2 else 6))
        log.append("thin layers")
    ctx.case(profile=spec, how=how, log=log, max_freq=max_freq, wave_frac=frac, nonlinear_only=only)
    snap = snapshot(src)
    if how == "copy":
        new = src.copy()
    elif rng.random() < 0.15:
        max_freq, frac, only = 50.0, 0.2, True
        new = src.auto_discretize()
    elif rng.random() < 0.5:
        new = src.auto_discretize(max_freq, frac, only)
    else:
        new = src.auto_discretize(max_freq=max_freq, wave_frac=frac, nonlinear_only=only)
    unchanged(ctx, src, snap, f"{how} changes its source")
    ctx.true(type(new) is type(src) and new is not src, f"{how}: type")
    ctx.equal(new.wt_depth, src.wt_depth, f"{how}: water table")
    mine = {id(la) for la in src}
    ctx.true(not any(id(la) in mine for la in new) and len({id(la) for la in new}) == len(new), f"{how}: layers are shared")

    # Layer by layer
    k = 0
    for j in range(len(src)):
        n = 1
        if how == "auto" and j < len(src) - 1 and (not only or curved(st[j])):
            opt = vs[j] / max_freq * frac
            x = thick[j] / opt
            n = 0
            total = 0.0
            while k + n < len(new) - 1 and total < thick[j] * (1 - 1e-9):
                total += new[k + n].thickness
                n += 1
            ctx.close(total, thick[j], "auto: thickness of a divided layer", 1e-9)
            ctx.true(n >= x * (1 - 1e-9), "auto: sub-layers too thick", layer=j, n=n, need=x)
            ctx.true(n <= max(np.ceil(x * (1 + 1e-9)), 1), "auto: more sub-layers than needed", layer=j, n=n, need=x)
            ctx.see("layers divided", n > 1)
        for q in range(n):
            la = new[k + q]
            ctx.close(la.thickness, thick[j] / n, f"{how}: thickness", 1e-9)
            ctx.same(la.initial_shear_vel, vs[j], f"{how}: small-strain velocity", layer=j)
            ctx.same(la.damping_min, damp[j], f"{how}: minimum damping", layer=j)
            ctx.true(la.soil_type == st[j], f"{how}: soil type", layer=j)
            # At rest, like a layer that was never used
            ctx.close(la.shear_mod, rho[j] * vs[j] ** 2, f"{how}: modulus at rest", 1e-12)
            ctx.close(la.damping, damp[j], f"{how}: damping at rest", 1e-12)
            ctx.close(la.shear_vel, vs[j], f"{how}: velocity at rest", 1e-12)
            ctx.true(la.strain_max is None, f"{how}: strain at rest")
        k += n
    ctx.equal(k, len(new), f"{how}: number of layers")

    # Point by point
    total = sum(thick[:-1])
    for z in np.r_[0.0, rng.uniform(0, total, 8), total + 1]:
        a, za = at(src, z)
        b, zb = at(new, z)
        if z <= total and min(za, a.thickness - za, zb, b.thickness - zb) > 1e-6:
            ctx.same([b.initial_shear_vel, b.unit_wt, b.damping_min], [a.initial_shear_vel, a.unit_wt, a.damping_min], f"{how}: properties at a depth")
            for eff in (False, True):
                ctx.close(b.stress_vert(zb, eff), a.stress_vert(za, eff), f"{how}: stress at a depth", 1e-9, 1e-7)
        ctx.see("depths compared")
    ctx.close(new.site_attenuation(), src.site_attenuation(), f"{how}: attenuation", 1e-9)
    ctx.close(new.travel_time[:-1].sum(), np.sum(np.array(thick[:-1]) / vs[:-1]), f"{how}: travel time", 1e-9, 1e-15)

    freqs = np.r_[0.0, np.logspace(-1, 1.2, 12)]
    fields = [("outcrop", 0.0), ("within", float(rng.uniform(0, total))), ("within", total)]
    rest = site.Profile([site.Layer(st[j], thick[j], vs[j], damp[j]) for j in range(len(st))], spec["wt_depth"])
    want = tf_of(rest, freqs, fields)
    snap_new = snapshot(new)
    got = tf_of(new, freqs, fields)
    for g, w in zip(got, want):
        ctx.close(g, w, f"{how}: linear transfer function", 1e-6, 1e-7 * np.abs(w).max())
    unchanged(ctx, src, snap, f"analysing the {how} changes the source")

    # Isolation in both directions
    kind = upset(rng, new, mspec)
    unchanged(ctx, src, snap, f"nonlinear analysis of the {how} changes the source")
    new[0].thickness = 7.25
    new[0].initial_shear_vel = 222.0
    new[-1].damping_min = 0.055
    new.append(site.Layer(st[0], 1.0, 500.0))
    new.wt_depth = 3.21
    unchanged(ctx, src, snap, f"editing the {how} changes the source")
    new2 = src.copy() if how == "copy" else src.auto_discretize(max_freq, frac, only)
    unchanged_new = snapshot(new2)
    ctx.equal(len(unchanged_new[0]), len(snap_new[0]), f"{how} again: number of layers")
    upset(rng, src, mspec)
    src[-1].initial_shear_vel = 1234.0
    src[0].thickness = 0.75
    src.insert(0, site.Layer(st[0], 1.0, 500.0))
    src.wt_depth = 9.0
    unchanged(ctx, new2, unchanged_new, f"using the source changes the {how}")
    ctx.see("isolation rounds")
    ctx.see(f"upset by {kind}")
    if len(set(vs)) > 1:
        ctx.nontrivial(spec, how, log)


MONITORS = [
    Monitor("discretized", discretized, 240, 7000, {
        "depths compared": 2000, "layers divided": 100, "isolation rounds": 200}),
]
