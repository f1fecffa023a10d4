"""Pools of soil types of every class, with duplicates, near-duplicates (one property
changed) and shared curve objects, and layers over them. Equality and hashing are
observed pairwise (reflexive, symmetric, transitive, hash-compatible, constant through
strains and analyses, usable in sets and dictionaries), and the soil types a profile
yields are compared with a linear scan by equality. Non-trivial: a pool with equal but
distinct objects."""
import copy

import numpy as np

from .. import gen
from ..core import Monitor


def families(rng):
    """Pairs (make, change) of constructors: same arguments are equal."""
    site = gen.ps().site
    mr = gen.build_curve("mod_reduc", gen.curve_points(rng, "mod_reduc"))
    da = gen.build_curve("damping", gen.curve_points(rng, "damping"))
    mr2 = gen.build_curve("mod_reduc", gen.curve_points(rng, "mod_reduc"))
    da2 = gen.build_curve("damping", gen.curve_points(rng, "damping"))
    base = dict(name="a", unit_wt=18.5, mod_reduc=mr, damping=da)
    # Curves equal to others at their first or last points, or in all points but not limits
    da3 = gen.build_curve("damping", (da.strains, np.r_[da.values[:-1], da.values[-1] * 1.01 + 1e-3]))
    da4 = gen.build_curve("damping", (da.strains * 1.5, da.values))
    mr3 = gen.build_curve("mod_reduc", (mr.strains, np.r_[mr.values[:-1], mr.values[-1] * 0.9]))
    per = np.array([0.01, 0.02, 0.05])
    changes = [
        dict(mod_reduc=None, damping=per), dict(mod_reduc=None, damping=per * (1 + 1e-7)), dict(mod_reduc=None, damping=per + [0, 0, 1e-9]),
        dict(mod_reduc=None, damping=per[:2]),
        dict(damping=da3), dict(damping=da4), dict(mod_reduc=mr3), dict(damping=float(da.values[0])),
        dict(name="b"), dict(unit_wt=18.6), dict(unit_wt=18.5 * (1 + 1e-6)), dict(mod_reduc=mr2), dict(damping=da2),
        dict(mod_reduc=None), dict(damping=0.02), dict(mod_reduc=None, damping=0.02),
    ]
    out = [base] + [{**base, **c} for c in changes]
    lin = dict(name="a", unit_wt=18.5, mod_reduc=None, damping=0.01)
    out += [lin] + [{**lin, **c} for c in (dict(name="c"), dict(unit_wt=20.0), dict(damping=0.03), dict(damping=0.0),
                                          dict(damping=0.01 * (1 + 2e-6)), dict(unit_wt=18.5 * (1 - 3e-6)))]
    return site.SoilType, out


def pool(ctx, rng, i):
    site = gen.ps().site
    cls, args = families(rng)
    which = list(rng.integers(0, len(args), int(rng.integers(2, 12))))
    objs, keys = [], []
    for k in which:
        how = rng.random()
        st = cls(**args[k])
        if how < 0.2:
            st = st.copy()
        elif how < 0.3:
            st = copy.copy(st)
        objs.append(st)
        keys.append(("soil", int(k)))
    # Other classes: the same object is equal to itself and its shallow copy only
    extra = [
        lambda: site.DarendeliSoilType(unit_wt=18.5, name="a"),
        lambda: site.DarendeliSoilType(unit_wt=18.5, name="a", freq=np.array([1.0, 2.0, 5.0])),
        lambda: site.DarendeliSoilType(unit_wt=18.5, name="a", freq=np.array([1.0, 2.0])),
        lambda: site.MenqSoilType(name="a", unit_wt=18.5),
        lambda: site.KishidaSoilType(name="a", unit_wt=18.5),
        lambda: site.RollinsEtAlSoilType(unit_wt=18.5, name="a"),
        lambda: site.AlemuEtAlSoilType(unit_wt=18.5, name="a"),
        lambda: site.TwoParamModifiedHyperbolicSoilType(name="a", unit_wt=18.5),
        lambda: site.WangSoilType("clayey_soil", name="a", unit_wt=18.5, stress_mean=100.0),
    ]
    for k in rng.integers(0, len(extra), 3):
        st = extra[k]()
        objs += [st, copy.copy(st)]
        keys += [("other", len(objs))] * 2
    # The plain soil with the curves of another kind is not of that kind
    objs.append(site.SoilType(objs[-1].name, objs[-1].unit_wt, objs[-1].mod_reduc, objs[-1].damping))
    keys.append(("plain", len(objs)))
    order = rng.permutation(len(objs))
    objs, keys = [objs[k] for k in order], [keys[k] for k in order]
    ctx.case(pool=[str(k) for k in keys])
    before = [hash(o) for o in objs]
    equal_pairs = 0
    for a, ka in zip(objs, keys):
        for b, kb in zip(objs, keys):
            want = ka == kb
            ctx.equal(a == b, want, "soil types: equality", a=ka, b=kb)
            ctx.equal(a != b, not want, "soil types: inequality", a=ka, b=kb)
            if want:
                ctx.equal(hash(a), hash(b), "soil types: equal but hashes differ", a=ka)
                equal_pairs += a is not b
            ctx.see("soil pairs")
        for x in (None, "a", 18.5, a.name, object()):
            ctx.true(not (a == x), "soil types: equal to something else")
    ctx.equal(len(set(objs)), len(set(keys)), "soil types: set")
    d = {o: k for o, k in zip(objs, keys)}
    for o, k in zip(objs, keys):
        ctx.equal(d[o], k, "soil types: dictionary")

    # Layers over the pool
    layers, lkeys = [], []
    for _ in range(int(rng.integers(2, 14))):
        k = int(rng.integers(len(objs)))
        # Values that agree to six digits differ (and a chain of them is not one value)
        t = float(rng.choice([1.0, 1.0, 2.0]) * (1 + 9e-6 * rng.choice([0, 0, 0, 1, 2])))
        v = float(rng.choice([150.0, 150.0, 300.0]) * (1 + 9e-6 * rng.choice([0, 0, 0, 1, 2])))
        layers.append(site.Layer(objs[k], t, v, 0.01))
        lkeys.append((keys[k], t, v))
    prof = site.Profile(layers, 1.0)
    for stage in ("at rest", "strained"):
        lh = [hash(x) for x in layers]
        for a, ka in zip(layers, lkeys):
            for b, kb in zip(layers, lkeys):
                ctx.equal(a == b, ka == kb, f"layers {stage}: equality", a=ka, b=kb)
                ctx.equal(a != b, ka != kb, f"layers {stage}: inequality", a=ka, b=kb)
                if ka == kb:
                    ctx.equal(hash(a), hash(b), f"layers {stage}: equal but hashes differ", a=ka)
                ctx.see("layer pairs")
            ctx.true(not (a == a.soil_type) and not (a == None), f"layers {stage}: equal to something else")  # noqa: E711
        ctx.equal(len(set(layers)), len(set(lkeys)), f"layers {stage}: set")
        ctx.true(all(la in prof for la in layers), f"layers {stage}: membership")
        got = list(prof.iter_soil_types())
        want = []
        for la in layers:
            if not any(la.soil_type == w for w in want):
                want.append(la.soil_type)
        ctx.equal(len(got), len(want), f"soil types of a profile {stage}: number")
        for g, w in zip(got, want):
            ctx.true(g is w, f"soil types of a profile {stage}: first appearance")
        ctx.see("soil types of profiles", len(got))
        if stage == "at rest":
            for la in layers:
                la.strain = float(10 ** rng.uniform(-5, -2))
                la.strain_max = 0.01
            ctx.equal([hash(x) for x in layers], lh, "layers: hash after strains")
            ctx.equal([hash(o) for o in objs], before, "soil types: hash after strains")
    for la in layers:
        c = la.copy()
        ctx.true(c == la and hash(c) == hash(la), "layers: a copy is equal")
    if equal_pairs:
        ctx.nontrivial(keys, lkeys)


def specs(ctx, rng, i):
    """Every kind of soil, its copies and one-property changes."""
    spec = gen.profile_spec(rng, n=int(rng.integers(2, 9)))
    soils = [gen.build_soil(s) for s in spec["soils"]]
    ctx.case(profile=spec)
    for k, a in enumerate(soils):
        ctx.true(a == a and not (a != a), "soil is equal to itself")
        b = copy.copy(a)
        ctx.true(a == b and b == a and hash(a) == hash(b), "soil is equal to its copy")
        for change in ("name", "_unit_wt", "damping", "mod_reduc"):
            if not hasattr(a, change):
                continue
            c = copy.copy(a)
            setattr(c, change, "other" if change == "name" else 12.3456 if change == "_unit_wt" else
                    0.0777 if change == "damping" else gen.build_curve("mod_reduc", gen.curve_points(rng, "mod_reduc")))
            ctx.true(a != c and c != a, "a changed soil is equal", change=change)
        ctx.true(a == b, "soil is equal to its copy later")
        for j in range(k):
            ctx.true(a != soils[j], "different soils are equal")
        ctx.see("soils changed")
    prof = gen.build_profile(spec, soils)
    before = [hash(s) for s in soils], [hash(la) for la in prof]
    used = []
    for la in spec["layers"]:
        if la["soil"] not in used:
            used.append(la["soil"])
    for _ in range(2):
        got = list(prof.iter_soil_types())
        ctx.equal([next(j for j, s in enumerate(soils) if s is g) for g in got], used, "soil types of a profile")
        for la in prof:
            la.strain = 1e-3
    prof.reset_layers()
    ctx.equal(([hash(s) for s in soils], [hash(la) for la in prof]), before, "hash after strains and reset")
    ctx.nontrivial(spec)


MONITORS = [
    Monitor("pool", pool, 150, 4000, {"soil pairs": 5000, "layer pairs": 5000, "soil types of profiles": 300}),
    Monitor("specs", specs, 150, 4000, {"soils changed": 400}),
]
