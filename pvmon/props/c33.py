"""Streams with every combination of thickness, velocity and soil models (both sampling
modes), interleaved with analyses of the seed and of earlier realisations. The recorded
sequence is compared with the models applied step by step to a fresh seed profile under the
same random state, with a stream that was not disturbed, and with the rules for shared soil
types, bedrock and percentile cycles. Non-trivial: each distinct seed and combination."""
import itertools
import json
import os
import pathlib
import subprocess
import sys

import numpy as np

from .. import gen
from ..core import Monitor, alike
from .c15 import upset
from .c30 import Fixed, state
from .c32 import quantile_pair, moved, settings, values


def curve(c):
    if hasattr(c, "values"):
        return tuple(np.asarray(c.strains).tolist()), tuple(np.asarray(c.values).tolist())
    if c is None:
        return None
    x = float(c)
    return None if np.isnan(x) else x


def soil(st):
    return st.name, st.unit_wt, type(st).__name__, curve(st.mod_reduc), curve(st.damping)


def snap(prof):
    """Everything a profile is made of."""
    return tuple(
        (la.thickness, la.initial_shear_vel, la.damping_min, la.depth, float(np.max(la.shear_vel)), float(np.max(la.damping)), soil(la.soil_type))
        for la in prof
    ) + (prof.wt_depth,)


def models(rng):
    """Specification of one combination of models."""
    d = {"thick": str(rng.choice(["", "", "toro", "halfspace"])), "vel": str(rng.choice(["", "toro", "depth"])),
         "soil": str(rng.choice(["", "darendeli", "spid"])), "bed": bool(rng.random() < 0.4)}
    d["correl"] = float(rng.uniform(-0.9, 0.9))
    d["class"] = str(rng.choice(["USGS C", "USGS B", "Geomatrix CD"]))
    d["depth"] = float(rng.uniform(5, 80))
    d["perc"] = None
    if d["soil"] and rng.random() < 0.5:
        d["perc"] = [float(x) for x in rng.uniform(0.02, 0.98, int(rng.integers(1, 5)))]
    return d


def make(d):
    v = gen.ps().variation
    out = {}
    if d["thick"] == "toro":
        out["var_thickness"] = v.ToroThicknessVariation()
    elif d["thick"]:
        out["var_thickness"] = v.HalfSpaceDepthVariation(Fixed(d["depth"]))
    if d["vel"] == "toro":
        out["var_velocity"] = v.ToroVelocityVariation.generic_model(d["class"], vary_bedrock=d["bed"])
    elif d["vel"]:
        out["var_velocity"] = v.DepthDependToroVelVariation.generic_model(d["class"], vary_bedrock=d["bed"])
    if d["soil"]:
        kw = {"sample_mode": "fixed_percentiles", "percentiles": d["perc"]} if d["perc"] else {}
        if d["soil"] == "darendeli":
            kw["vary_bedrock"] = d["bed"]
            out["var_soiltypes"] = v.DarendeliVariation(d["correl"], **kw)
        else:
            out["var_soiltypes"] = v.SpidVariation(d["correl"], **kw)
    return out


def analyse(rng, prof):
    upset(rng, prof, gen.ts_spec(rng, n=64))


def stream(ctx, rng, i):
    v = gen.ps().variation
    spec, d = gen.profile_spec(rng, n=int(rng.integers(1, 8))), models(rng)
    d["depth"] = float(sum(la["thickness"] for la in spec["layers"][:-1]) * rng.uniform(0.3, 1.7))
    n = len(d["perc"]) * int(rng.integers(1, 4)) if d["perc"] else int(rng.integers(1, 7))
    seed = int(rng.integers(1 << 30))
    ctx.case(profile=spec, models=d, count=n, seed=seed)

    def draw(prof, kw, busy=None):
        np.random.seed(seed)
        out, keep = [], []
        for p in v.iter_varied_profiles(prof, n, **kw):
            out.append(snap(p))
            keep.append(p)
            if busy is not None:
                mem = np.random.get_state()
                analyse(busy, keep[int(busy.integers(len(keep)))])
                if busy.random() < 0.5:
                    analyse(busy, prof)
                    ctx.see("analyses of the seed during the stream")
                np.random.set_state(mem)
                ctx.see("analyses during the stream")
        return out, keep

    prof = gen.build_profile(spec)
    fresh = snap(prof)
    want, keep = draw(prof, make(d))
    ctx.equal(len(want), n, "number of realisations")
    ctx.true(alike(snap(prof), fresh), "seed profile after the stream")
    ctx.true(len({id(p) for p in keep}) == n and all(p is not prof for p in keep), "separate profiles")
    for p, q in itertools.combinations([prof, *keep], 2):
        ctx.true(not ({id(la) for la in p} & {id(la) for la in q}), "layers shared between profiles")
    # The same sequence again: same models, models made anew, and a disturbed stream
    kw = make(d)
    ctx.true(alike(draw(prof, kw)[0], want), "same random seed gives the same sequence")
    ctx.true(alike(draw(prof, kw)[0], want), "models used again")
    busy = np.random.default_rng(seed)
    got, kept = draw(prof, kw, busy)
    ctx.true(alike(got, want), "stream with analyses in between")
    got, _ = draw(prof, kw)
    ctx.true(alike(got, want), "stream from an analysed seed")
    # Each realisation is the models applied to the seed
    np.random.seed(seed)
    for k in range(n):
        p = gen.build_profile(spec)
        if d["thick"]:
            p = kw["var_thickness"](p)
        if d["vel"]:
            p = kw["var_velocity"](p)
        if d["soil"]:
            p = kw["var_soiltypes"].vary_profile(p, sample_index=k % len(d["perc"]) if d["perc"] else None)
        ctx.true(alike(snap(p), want[k]), "models applied to the seed", f"realisation {k}")
    ref = gen.build_profile(spec)
    for k, p in enumerate(keep):
        check(ctx, d, ref, p, k)
    ctx.see("realisations", n)
    ctx.nontrivial(spec, str(d))


def check(ctx, d, ref, p, k):
    """What has to stay as in the seed."""
    if not d["thick"]:
        ctx.equal([la.thickness for la in p], [la.thickness for la in ref], "thicknesses")
        if not d["vel"]:
            ctx.equal([la.initial_shear_vel for la in p], [la.initial_shear_vel for la in ref], "velocities")
        # A bedrock that is varied takes its own
        ctx.equal([la.damping_min for la in p][:-1], [la.damping_min for la in ref][:-1], "minimum damping")
        ctx.equal([la.soil_type.name for la in p], [la.soil_type.name for la in ref], "names of the soils")
    ctx.equal(p.wt_depth, ref.wt_depth, "water table")
    bed, rock = p[-1], ref[-1]
    if not (d["bed"] and d["vel"]):
        ctx.equal(bed.initial_shear_vel, rock.initial_shear_vel, "velocity of the bedrock")
    if not (d["bed"] and d["soil"] == "darendeli"):
        ctx.true(alike(soil(bed.soil_type), soil(rock.soil_type)), "soil of the bedrock")
        ctx.equal(bed.damping_min, rock.damping_min, "damping of the bedrock")
    # One version of each soil
    seen = {}
    for la in list(p)[:-1]:
        now = soil(la.soil_type)
        key = now[:2]
        ctx.true(alike(seen.setdefault(key, now), now), "layers that share a soil share its version")
        ctx.see("layers compared")
    nominal = {(la.soil_type.name, la.soil_type.unit_wt): la.soil_type for la in list(ref)[:-1]}
    for key, now in seen.items():
        ctx.true(key in nominal, "soil of the seed", data=key)
        st = nominal[key]
        if not d["soil"]:
            ctx.true(alike(now, soil(st)), "soil that is not varied")
        elif d["perc"]:
            par = {"correlation": d["correl"]}
            pair = quantile_pair(d["perc"][k % len(d["perc"])], d["correl"])
            full = settings(d["soil"], par)
            mr = values(st.mod_reduc) if st.mod_reduc is not None else np.zeros(0)
            if mr.ndim == 0:
                mr = np.zeros(0)
            with np.errstate(invalid="ignore"):
                wmr, wd = moved(d["soil"], full, mr, np.atleast_1d(values(st.damping)), *pair)
            if now[3] is not None and mr.size and np.all(mr <= 1):
                ctx.close(np.array(now[3][1]), np.clip(wmr, *full["limits_mod_reduc"]), "percentile of the modulus reduction", 1e-9, 1e-12)
            vd = np.array(now[4][1]) if isinstance(now[4], tuple) else np.atleast_1d(now[4])
            ctx.close(vd, np.clip(wd, *full["limits_damping"]), "percentile of the damping", 1e-9, 1e-12)
            ctx.see("percentile realisations")


def counts(ctx, rng, i):
    """Counts are honoured and validated."""
    v = gen.ps().variation
    spec = gen.profile_spec(rng, n=int(rng.integers(1, 4)), nonlinear=True)
    prof = gen.build_profile(spec)
    m = int(rng.integers(2, 6))
    ps = [float(x) for x in rng.uniform(0.05, 0.95, m)]
    ctx.case(profile=spec, percentiles=ps)
    cls = (v.DarendeliVariation, v.SpidVariation)[i % 2]
    model = cls(0.3, sample_mode="fixed_percentiles", percentiles=ps)
    for n in range(0, 3 * m + 1):
        if n % m:
            ctx.raises(lambda n=n: list(v.iter_varied_profiles(prof, n, var_soiltypes=model)), "count that does not fit the percentiles", ValueError, data=n)
            ctx.see("refusals")
        else:
            got = [snap(p) for p in v.iter_varied_profiles(prof, n, var_soiltypes=model)]
            ctx.equal(len(got), n, "number of realisations")
            for k in range(m, n):
                ctx.true(alike(got[k], got[k - m]), "percentiles cycle")
            ctx.see("cycles", n // m)
    rand = cls(0.3)
    for n in (0, 1, m, 7):
        ctx.equal(len(list(v.iter_varied_profiles(prof, n, var_soiltypes=rand))), n, "number of realisations")
        ctx.equal(len(list(v.iter_varied_profiles(prof, n))), n, "number of copies")
    for p in v.iter_varied_profiles(prof, 2):
        ctx.true(alike(snap(p), snap(prof)) and p is not prof, "copy of the seed")
    # Taking part of a stream leaves the seed as it was; streams are independent
    a, b = (v.iter_varied_profiles(prof, 2 * m, var_soiltypes=model) for _ in range(2))
    got = [(snap(next(a)), snap(next(b))) for _ in range(m)]
    ctx.true(all(alike(x, y) for x, y in got), "two streams at once")
    fresh = snap(gen.build_profile(spec))
    ctx.true(alike(snap(prof), fresh), "seed profile after partial streams")
    ctx.nontrivial(spec, str(ps))


def shared(ctx, rng, i):
    """A soil in several layers is varied once, as are equal but separate linear soils; different
    soils vary on their own."""
    v, site = gen.ps().variation, gen.ps().site
    same = i % 2 == 0
    s = gen.soil_spec(rng, nonlinear=same, i=0)
    while (s["kind"] == "curves" and (s["mr"] is None or not isinstance(s["d"], tuple))) or not 0 < s.get("damping", 0.01) <= 0.05:
        s = gen.soil_spec(rng, nonlinear=same, i=0)
    other = {**s, "name": "other"}
    rock = gen.soil_spec(rng, False, "rock")
    n = int(rng.integers(2, 6))
    st = gen.build_soil(s)
    layers = [site.Layer(st if same else gen.build_soil(s), 3.0, 200.0 + k) for k in range(n)]
    layers.append(site.Layer(gen.build_soil(other), 4.0, 400.0))
    layers.append(site.Layer(gen.build_soil(rock), 0, 900.0))
    prof = site.Profile(layers)
    ctx.case(soil=s, same=same, layers=n)
    model = v.SpidVariation(float(rng.uniform(-0.8, 0.8)))
    diff = 0
    for p in v.iter_varied_profiles(prof, 4, var_soiltypes=model):
        vs = [soil(la.soil_type) for la in p]
        for x in vs[1:n]:
            ctx.true(alike(x, vs[0]), "layers of one soil share its version")
        diff += vs[n][3:] != vs[0][3:]
        ctx.see("shared layers", n)
    ctx.equal(diff, 4, "soils that vary on their own")
    ctx.nontrivial(str(s), same, n)


PROCESS = """
import json, sys
import numpy as np
from pvmon import gen
from pvmon.props import c33
for spec, d, n, seed in json.load(open(sys.argv[1])):
    np.random.seed(seed)
    prof = gen.build_profile(spec)
    print(repr([c33.snap(p) for p in gen.ps().variation.iter_varied_profiles(prof, n, **c33.make(d))]))
"""


def processes(ctx, rng, i):
    """The same random seed gives the same sequence in any process."""
    cases = []
    for _ in range(12):
        spec, d = gen.profile_spec(rng, n=int(rng.integers(3, 9)), nonlinear=None if rng.random() < 0.5 else True), models(rng)
        d["soil"] = d["soil"] or "spid"
        # Every layer of a soil of its own
        spec["soils"] = [gen.soil_spec(rng, None, k) for k in range(len(spec["layers"]) - 1)] + [gen.soil_spec(rng, False, "rock")]
        for k, la in enumerate(spec["layers"]):
            la["soil"] = k
        cases.append((spec, d, 3 * len(d["perc"] or [1]), int(rng.integers(1 << 30))))
    cases = json.loads(json.dumps(cases, default=lambda x: x.tolist()))
    ctx.case(cases=cases)
    path = pathlib.Path(ctx.scratch) / "cases.json"
    path.write_text(json.dumps(cases))
    here = pathlib.Path(__file__).resolve().parents[2]
    src = pathlib.Path(gen.ps().site.__file__).resolve().parents[1]
    running, out = [], []
    for hashes in ("0", "1", "random"):
        env = {**os.environ, "PYTHONHASHSEED": hashes, "PYTHONPATH": f"{src}:{here}"}
        running.append(subprocess.Popen([sys.executable, "-c", PROCESS, str(path)], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True))
    for p in running:
        text, err = p.communicate(timeout=300)
        ctx.true(p.returncode == 0, "process", err[-2000:])
        out.append(text.splitlines())
    for k in range(len(cases)):
        ctx.equal(len({o[k] for o in out}), 1, "sequences of different processes", data=cases[k])
        ctx.see("sequences of other processes", len(out))
    ctx.nontrivial(str(cases))


MONITORS = [
    Monitor("processes", processes, 1, 20, {"sequences of other processes": 36}),
    Monitor("stream", stream, 150, 5000, {"realisations": 300, "analyses during the stream": 300, "analyses of the seed during the stream": 100, "layers compared": 500, "percentile realisations": 100}),
    Monitor("counts", counts, 24, 500, {"refusals": 60, "cycles": 60}),
    Monitor("shared", shared, 40, 1000, {"shared layers": 300}),
]
