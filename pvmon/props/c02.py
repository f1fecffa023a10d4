"""Random linear profiles; after one analysis the transfer functions between
random locations are related to each other (self, chain, inverse, free surface,
interface continuity, query order), and analyses of equivalent descriptions of the
same ground (split layers, half-space extended by an explicit layer) are compared.
Non-trivial: at least one interface between different materials, or a split."""
import copy

import numpy as np

from .. import gen
from ..core import Monitor
from ..wavework import limit_freq, spec_props, warm  # noqa: F401


def setup(rng, n=None, fmax=25.0, atten=12.0):
    spec = gen.profile_spec(rng, n=n, max_thick=25)
    soils = [gen.build_soil(s) for s in spec["soils"]]
    mspec = gen.freqs_spec(rng, n=int(rng.integers(5, 80)), fmax=fmax)
    mspec["freqs"] = limit_freq(mspec["freqs"], spec_props(spec, soils), atten)
    return spec, soils, mspec


def run(spec, soils, mspec, base=None):
    prof = gen.build_profile(spec, soils)
    calc = gen.ps().propagation.LinearElasticCalculator()
    calc(gen.build_motion(mspec), prof, gen.build_location(prof, base or gen.base_loc()))
    return calc, prof


def scale(calc, prof, loc):
    """Magnitude of the up- and down-going waves at a location, relative to the surface."""
    surf = prof.location("within", index=0)
    up = gen.ps().site.Location(loc.index, loc.layer, "incoming_only", loc.depth_within)
    t_in = np.abs(calc.calc_accel_tf(surf, up))
    wi = gen.ps().site.Location(loc.index, loc.layer, "within", loc.depth_within)
    return 2 * t_in + np.abs(calc.calc_accel_tf(surf, wi))


def identities(ctx, rng, i):
    ps = gen.ps()
    spec, soils, mspec = setup(rng)
    ctx.case(profile=spec, motion=mspec)
    node = None
    if i % 4 == 3:
        # Close to a node of the uppermost layer
        la = spec["layers"][0]
        la["soil"], la["dmin"] = len(spec["soils"]), float(10 ** rng.uniform(-7, -4))
        spec["soils"] = spec["soils"] + [{"kind": "linear", "name": "light", "unit_wt": 18.0, "damping": la["dmin"]}]
        soils = soils + [gen.build_soil(spec["soils"][-1])]
        node = la["thickness"] * float(rng.uniform(0.3, 1))
        near = (2 * rng.integers(0, 3, 6) + 1) * la["vs"] / (4 * node) * (1 + rng.choice([-1, 1], 6) * 10 ** rng.uniform(-4, -2, 6))
        near = near[np.isin(near, limit_freq(near, spec_props(spec, soils), 12.0))]
        mspec["freqs"] = np.unique(np.r_[mspec["freqs"], near])
        ctx.see("frequencies at nodes", near.size)
    calc, prof = run(spec, soils, mspec, gen.location_spec(rng, spec))
    f = mspec["freqs"]
    surf = {k: prof.location(k, index=0) for k in ("within", "outcrop", "incoming_only")}
    one = np.ones(f.size)
    ctx.close(calc.calc_accel_tf(surf["within"], surf["outcrop"]), one, "free surface: outcrop = within", 0, 1e-12)
    ctx.close(calc.calc_accel_tf(surf["incoming_only"], surf["within"]), 2 * one, "free surface: within = 2 incoming", 0, 1e-12)
    for k, lin in surf.items():
        ctx.true(
            np.all(np.abs(calc.calc_strain_tf(lin, surf["within"])) * (2 * np.pi * f) * prof[0].initial_shear_vel
                   <= 1e-9 * gen.G),
            "free surface: strain is zero",
        )
    locs = []
    for _ in range(4):
        ls = gen.location_spec(rng, spec)
        locs.append(gen.build_location(prof, ls))
    if node is not None:
        locs[0] = prof.location("within", depth=node)
    sc = [scale(calc, prof, lo) for lo in locs]
    s0 = [np.abs(calc.calc_accel_tf(surf["within"], lo)) for lo in locs]
    for a in range(4):
        # Only where the location is not at a node is a ratio well conditioned
        oka = s0[a] > 1e-4 * sc[a]
        t = calc.calc_accel_tf(locs[a], locs[a])
        ctx.close(t[oka], np.ones(oka.sum()), "self transfer function", 0, 1e-12)
        # outcrop is twice incoming at every location
        lo = locs[a]
        inc = ps.site.Location(lo.index, lo.layer, "incoming_only", lo.depth_within)
        out = ps.site.Location(lo.index, lo.layer, "outcrop", lo.depth_within)
        ctx.close(calc.calc_accel_tf(inc, out), 2 * one, "outcrop = 2 incoming", 1e-12, 1e-12)
        for b in range(4):
            okb = s0[b] > 1e-4 * sc[b]
            ok = oka & okb
            tab = calc.calc_accel_tf(locs[a], locs[b])
            tba = calc.calc_accel_tf(locs[b], locs[a])
            ctx.close((tab * tba)[ok], np.ones(ok.sum()), "a->b times b->a", 0, 1e-9)
            c = (a + b + 1) % 4
            tbc = calc.calc_accel_tf(locs[b], locs[c])
            tac = calc.calc_accel_tf(locs[a], locs[c])
            ctx.close((tab * tbc)[ok], tac[ok], "a->b times b->c", 1e-8, 1e-8 * np.max(np.abs(tac[ok]), initial=0))
            ctx.see("chains")
    # The order of the queries does not matter
    again = [calc.calc_accel_tf(locs[0], lo) for lo in locs]
    deep = prof.location("within", depth=sum(la["thickness"] for la in spec["layers"]) + 50.0)
    calc.calc_accel_tf(locs[1], deep)
    calc.calc_strain_tf(locs[1], deep)
    for lo, t in zip(locs[::-1], again[::-1]):
        ctx.near(calc.calc_accel_tf(locs[0], lo), t, "repeated query")
    if len({la["vs"] for la in spec["layers"]}) > 1:
        ctx.nontrivial(spec)


def continuity(ctx, rng, i):
    ps = gen.ps()
    spec, soils, mspec = setup(rng)
    mspec["freqs"] = mspec["freqs"][mspec["freqs"] > 0]
    ctx.case(profile=spec, motion=mspec)
    calc, prof = run(spec, soils, mspec)
    # Response relative to the surface, which is well conditioned
    surf = prof.location("within", index=0)
    for k in range(len(prof) - 1):
        above = ps.site.Location(k, prof[k], "within", prof[k].thickness)
        below = prof.location("within", index=k + 1)
        atol = 1e-9 * scale(calc, prof, above) + 1e-9 * scale(calc, prof, below)
        ctx.close(
            calc.calc_accel_tf(surf, above), calc.calc_accel_tf(surf, below),
            f"motion continuous at interface", 0, atol,
        )
        ta = calc.calc_stress_tf(surf, above, damped=True)
        tb = calc.calc_stress_tf(surf, below, damped=True)
        w = 2 * np.pi * mspec["freqs"]
        unit = gen.G / w * (
            np.abs(prof[k].comp_shear_vel) * prof[k].density * scale(calc, prof, above)
            + np.abs(prof[k + 1].comp_shear_vel) * prof[k + 1].density * scale(calc, prof, below)
        )
        ctx.close(ta, tb, "shear stress continuous at interface", 0, 1e-9 * unit)
        ctx.see("interfaces")
    if len(prof) > 1:
        ctx.nontrivial(spec)


def invariance(ctx, rng, i):
    """The same ground described differently."""
    spec, soils, mspec = setup(rng)
    f = mspec["freqs"]
    split = copy.deepcopy(spec)
    parts = []
    for la in spec["layers"][:-1]:
        m = int(rng.integers(1, 5))
        t0 = la["thickness"]
        cuts = sorted({0.0, t0, *[round(float(rng.uniform(0, t0)) * 1024) / 1024 for _ in range(m - 1)]})
        parts += [{**la, "thickness": b - a} for a, b in zip(cuts, cuts[1:])]
    extra = 0
    if i % 2:
        extra = int(rng.integers(1, 4))
        parts += [
            {**spec["layers"][-1], "thickness": float(rng.integers(1, 40)) / 4} for _ in range(extra)
        ]
    split["layers"] = parts + [dict(spec["layers"][-1])]
    split_props = spec_props(split, soils)
    mspec["freqs"] = f = limit_freq(f, split_props, 12.0)
    ctx.case(profile=spec, split=[la["thickness"] for la in split["layers"]], extended=extra, motion=mspec)
    base = gen.location_spec(rng, spec)
    if base["index"] is not None:
        base = gen.base_loc()
        top = sum(la["thickness"] for la in spec["layers"][:-1])
        base = {"field": "outcrop", "index": None, "depth": top}
    c1, p1 = run(spec, soils, mspec)
    c2, p2 = run(split, soils, mspec)
    total = sum(la["thickness"] for la in spec["layers"][:-1])
    s1, s2 = p1.location("within", index=0), p2.location("within", index=0)
    for _ in range(6):
        d = float(rng.choice([rng.uniform(0, total + 5), 0.0, total]))
        for field in ("within", "outcrop", "incoming_only"):
            l1, l2 = p1.location(field, depth=d), p2.location(field, depth=d)
            sc = scale(c1, p1, l1)
            ctx.close(
                c2.calc_accel_tf(s2, l2), c1.calc_accel_tf(s1, l1),
                "splitting layers changes motion", 0, 1e-9 * sc, depth=d, field=field,
            )
            ctx.see("split comparisons")
        l1, l2 = p1.location("within", depth=d), p2.location("within", depth=d)
        k = 2 * np.pi * np.maximum(f, 1e-6) / np.abs(l1.layer.comp_shear_vel)
        unit = gen.G * k * sc / (2 * np.pi * np.maximum(f, 1e-6)) ** 2
        ctx.close(
            c2.calc_strain_tf(s2, l2), c1.calc_strain_tf(s1, l1),
            "splitting layers changes strain", 0, 1e-8 * unit, depth=d,
        )
    # Base outcrop motion to surface, the usual use
    b1 = p1.location(base["field"], depth=base["depth"])
    b2 = p2.location(base["field"], depth=base["depth"])
    t0 = np.abs(c1.calc_accel_tf(s1, b1))
    ok = t0 > 1e-4 * scale(c1, p1, b1)
    ctx.close(
        c2.calc_accel_tf(b2, s2)[ok], c1.calc_accel_tf(b1, s1)[ok],
        "splitting layers changes amplification", 1e-7,
    )
    if len(parts) > len(spec["layers"]) - 1:
        ctx.nontrivial(spec, len(parts))


MONITORS = [
    Monitor("identities", identities, 200, 6000, {"chains": 1500}),
    Monitor("continuity", continuity, 200, 6000, {"interfaces": 500}),
    Monitor("invariance", invariance, 200, 6000, {"split comparisons": 1500}),
]
