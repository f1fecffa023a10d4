"""Histories of analyses over a pool of shared calculators, profiles, soil types and
motions, in random order and with outputs queried in between. Each run's results are
compared to rounding (1e-11) with the same run on objects built afresh, everything handed in is
compared with a snapshot taken before, and results obtained earlier are compared again
at the end. A threaded variant runs separate profiles (sharing soil types and motions)
concurrently with a tiny interpreter switch interval. Non-trivial: a history in which
some calculator or profile was used more than once."""
import copy
import sys
import threading

import numpy as np

from .. import gen
from ..core import Monitor, alike
from ..wavework import warm  # noqa: F401


def make_calc(p, kind, opt):
    if kind == "LE":
        return p.LinearElasticCalculator()
    if kind == "EQL":
        return p.EquivalentLinearCalculator(opt["ratio"], opt["tol"], opt["cap"], 0.0)
    if kind == "QWL":
        return p.QuarterWaveLenCalculator(opt["kappa"], "standard")
    return p.FrequencyDependentEqlCalculator(kind, opt["ratio"], opt["tol"], opt["cap"], 0.0)


KINDS = ("LE", "LE", "EQL", "EQL", "ka02", "zr15", "ko:20", "QWL")


def amend(rng, spec):
    """Change one property of one layer; returns what an edit needs."""
    j = int(rng.integers(len(spec["layers"]) - 1))
    la = spec["layers"][j]
    key = str(rng.choice(["dmin", "dmin", "vs", "thickness"]))
    la[key] = {"dmin": float(rng.uniform(0.001, 0.12)), "vs": float(rng.uniform(120, 600)), "thickness": float(rng.integers(8, 80)) / 8}[key]
    return j, {"dmin": "damping_min", "vs": "initial_shear_vel", "thickness": "thickness"}[key], la[key]


def pool(rng, n_prof=2):
    """Specifications of the shared objects: soils are shared by the profiles."""
    soils = [gen.soil_spec(rng, True if k % 2 else None, k) for k in range(4)]
    profiles = []
    for _ in range(n_prof):
        layers = []
        for _ in range(int(rng.integers(1, 5))):
            layers.append({"soil": int(rng.integers(4)), "thickness": float(rng.integers(8, 80)) / 8,
                           "vs": float(rng.uniform(120, 600)), "dmin": float(rng.uniform(0.002, 0.04)) if rng.random() < 0.4 else None})
        if rng.random() < 0.3:
            layers.append(dict(layers[0]))
        layers.append({"soil": int(rng.integers(4)), "thickness": 0.0, "vs": float(rng.uniform(700, 2000)), "dmin": 0.01})
        profiles.append({"soils": soils, "layers": layers, "wt_depth": 2.0})
    for k in range(1, n_prof):
        if rng.random() < 0.5:
            # The same as the one before in all but one property
            profiles[k] = copy.deepcopy(profiles[k - 1])
            if rng.random() < 0.6:
                amend(rng, profiles[k])
            else:
                # Another soil, with the same moduli and dampings at small strains
                for la in profiles[k]["layers"]:
                    old = la["soil"]
                    la["soil"] = (old + 2) % 4
                    la["dmin"] = 0.015 if la["dmin"] is None else la["dmin"]
                    la["vs"] *= (soils[old]["unit_wt"] / soils[la["soil"]]["unit_wt"]) ** 0.5
                for la, lb in zip(profiles[k]["layers"], profiles[k - 1]["layers"]):
                    lb["dmin"] = la["dmin"]
    # Motions of the same length but different frequencies, and of different lengths
    motions = [
        gen.ts_spec(rng, n=128, dt=0.01, pga=10 ** rng.uniform(-2.5, -1), kind="noise", fa=False),
        gen.ts_spec(rng, n=128, dt=0.02, pga=10 ** rng.uniform(-2.5, -1), kind="noise", fa=False),
        gen.ts_spec(rng, n=200, dt=0.01, pga=10 ** rng.uniform(-2.5, -1), kind="noise", fa=False),
        gen.rvt_spec(rng, n=50, scale=0.01),
        gen.rvt_spec(rng, n=65, scale=0.01),
        gen.rvt_spec(rng, n=50, scale=0.01),
    ]
    # The same count and range of other frequencies
    x = np.linspace(0, 1, 50) ** float(rng.uniform(1.3, 3))
    f = motions[3]["freqs"]
    motions[5]["freqs"] = f[0] + x * (f[-1] - f[0])
    motions = [m if m["kind"] == "rvt" else {**m, "fa_length": None} for m in motions]
    calcs = []
    for _ in range(4):
        calcs.append((str(rng.choice(KINDS)), {
            "ratio": float(rng.uniform(0.4, 1)), "tol": float(rng.choice([0.0, 0.01, 1.0])),
            "cap": int(rng.integers(1, 8)), "kappa": float(rng.uniform(0, 0.05))}))
    return soils, profiles, motions, calcs


def observe(calc, kind, prof, mot, lin, queries):
    """Everything a user can read after a run."""
    out = []
    if kind == "QWL":
        out += [calc.crustal_amp, calc.site_term]
    else:
        for q in queries:
            lo = prof.location(q["field"], depth=q["depth"])
            wi = prof.location("within", depth=q["depth"])
            tf = calc.calc_accel_tf(lin, lo)
            out += [calc.wave_at_location(lo), tf, calc.calc_strain_tf(lin, wi), calc.calc_stress_tf(lin, wi, True)]
            out += [np.asarray(mot.calc_peak(tf))]
    for la in prof:
        out += [np.asarray(x) for x in (la.strain, la.shear_mod, la.damping, la.shear_vel)]
        out.append(np.asarray(np.nan if la.strain_max is None else la.strain_max))
    return out


def inputs_state(prof, mot):
    out = []
    for la in prof:
        st = la.soil_type
        out += [la.thickness, la.initial_shear_vel, la.damping_min, la.depth, la.depth_mid, la.stress_vert(), st.unit_wt, str(st.name)]
        for c in (st.mod_reduc, st.damping):
            if hasattr(c, "strains"):
                out += [np.array(c.strains), np.array(c.values), np.array(c([1e-5, 1e-3]))]
            else:
                out.append(c)
    out += [np.array(mot.freqs), np.array(mot.fourier_amps), float(prof.wt_depth), len(prof)]
    if hasattr(mot, "accels"):
        out += [np.array(mot.accels), mot.time_step]
    return out


def equal_state(ctx, got, want, label):
    ctx.equal(len(got), len(want), label + " (count)")
    for a, b in zip(got, want):
        if isinstance(b, np.ndarray):
            ctx.near(a, b, label)
        else:
            ctx.true(alike(a, b), label, got=a, want=b)


def plan(rng, profiles, motions, calcs):
    k = int(rng.integers(len(calcs)))
    pi = int(rng.integers(len(profiles)))
    mi = int(rng.integers(len(motions)))
    if calcs[k][0] == "QWL":
        mi = -int(rng.integers(1, len(QWL_FREQS) + 1))
    total = sum(la["thickness"] for la in profiles[pi]["layers"])
    q = [{"field": str(rng.choice(["within", "outcrop"])), "depth": float(rng.uniform(0, total * 1.1))} for _ in range(2)]
    field = str(rng.choice(["outcrop", "within"], p=[0.8, 0.2]))
    return k, pi, mi, q, {"field": field, "index": -1, "depth": None}


def execute(calc, kind, prof, mot, base, q):
    lin = gen.build_location(prof, base)
    calc(mot, prof, lin)
    return observe(calc, kind, prof, mot, lin, q)


QWL_FREQS = [
    {"kind": "freqs", "freqs": np.array(f)}
    for f in ([0.3, 1.0, 2.5, 7.0, 20.0], [0.5, 0.9, 3.5, 9.0, 15.0], [1.0, 4.0], [0.3, 0.8, 3.5, 9.0, 20.0])
]


def build_mot(motions, mi):
    """Motions from the end (negative indices) are plain lists of frequencies."""
    return gen.build_motion(QWL_FREQS[-mi - 1] if mi < 0 else motions[mi])


class Bare:
    """What inputs_state reads of a motion without amplitudes."""


def history(ctx, rng, i):
    p = gen.ps().propagation
    soil_specs, profiles, motions, calcs = pool(rng)
    soils = [gen.build_soil(s) for s in soil_specs]
    profs = [gen.build_profile(s, soils) for s in profiles]
    mots = [gen.build_motion(m) for m in motions]
    cs = [make_calc(p, *c) for c in calcs]
    steps = [plan(rng, profiles, motions, calcs) for _ in range(int(rng.integers(4, 10)))]
    for s in range(1, len(steps)):
        if rng.random() < 0.35:
            # The same analysis again, perhaps of another profile
            k, pi, *rest = steps[s - 1]
            steps[s] = (k, (pi + int(rng.integers(2))) % len(profiles), *rest)
    ctx.case(soils=soil_specs, profiles=profiles, calcs=calcs, steps=[s[:3] for s in steps])
    qms = [gen.build_motion(f) for f in QWL_FREQS]
    kept = []
    # States of the inputs before anything ran
    before = {(a, b): inputs_state(profs[a], mots[b]) for a in range(len(profs)) for b in range(len(mots))}
    for k, pi, mi, q, base in steps:
        kind = calcs[k][0]
        err = None
        if rng.random() < 0.2:
            j, attr, value = amend(rng, profiles[pi])
            setattr(profs[pi][j], attr, value)
            for b in range(len(mots)):
                before[pi, b] = inputs_state(profs[pi], mots[b])
            ctx.see("edits between runs")
        try:
            got = execute(cs[k], kind, profs[pi], qms[-mi - 1] if mi < 0 else mots[mi], base, q)
        except RuntimeError as e:
            err, got = type(e), None
        fresh_soils = [gen.build_soil(s) for s in soil_specs]
        try:
            want = execute(
                make_calc(p, *calcs[k]), kind, gen.build_profile(profiles[pi], fresh_soils),
                build_mot(motions, mi), base, q,
            )
        except RuntimeError as e:
            ctx.equal(err, type(e), f"{kind}: refusal depends on the history")
            ctx.see("refused alike")
            continue
        ctx.equal(err, None, f"{kind}: refused only after a history")
        ctx.equal(len(got), len(want), f"{kind}: results after a history")
        for a, b in zip(got, want):
            ctx.near(a, b, f"{kind}: result depends on the history")
        ctx.see("runs compared with fresh objects")
        kept.append((kind, got, [np.array(a) for a in got]))
        for a in range(len(profs)):
            for b in range(len(mots)):
                equal_state(ctx, inputs_state(profs[a], mots[b]), before[a, b], f"{kind}: an analysis changes its inputs")
        if rng.random() < 0.2:
            profs[pi].reset_layers()
            for la in profs[pi]:
                ctx.close(la.shear_mod, la.unit_wt / gen.G * la.initial_shear_vel**2, "reset modulus", 1e-12)
                ctx.close(la.damping, la.damping_min, "reset damping", 0)
    for kind, got, copies in kept:
        for a, b in zip(got, copies):
            ctx.near(a, b, f"{kind}: earlier results change later")
    ctx.nontrivial(soil_specs, steps)


def threads(ctx, rng, i):
    p = gen.ps().propagation
    n = 4
    soil_specs, profiles, motions, calcs = pool(rng, n)
    steps = []
    for t in range(n):
        mine = [plan(rng, profiles, motions, calcs) for _ in range(4)]
        steps.append([(k, t, mi, [{**x, "depth": min(x["depth"], 5.0)} for x in q], b) for k, _, mi, q, b in mine])
    ctx.case(profiles=profiles, calcs=calcs, steps=[[s[:3] for s in th] for th in steps])
    want = []
    for th in steps:
        rs = []
        for k, pi, mi, q, base in th:
            fs = [gen.build_soil(s) for s in soil_specs]
            try:
                rs.append(execute(make_calc(p, *calcs[k]), calcs[k][0], gen.build_profile(profiles[pi], fs), build_mot(motions, mi), base, q))
            except RuntimeError:
                rs.append(None)
        want.append(rs)
    soils = [gen.build_soil(s) for s in soil_specs]
    profs = [gen.build_profile(s, soils) for s in profiles]
    mots = [gen.build_motion(m) for m in motions]
    qms = [gen.build_motion(f) for f in QWL_FREQS]
    got = [[] for _ in range(n)]
    events, lock = [], threading.Lock()
    gate = threading.Barrier(n)

    def work(t):
        cs = [make_calc(p, *c) for c in calcs]
        gate.wait()
        for k, pi, mi, q, base in steps[t]:
            with lock:
                events.append(("call", t))
            try:
                r = execute(cs[k], calcs[k][0], profs[pi], qms[-mi - 1] if mi < 0 else mots[mi], base, q)
            except RuntimeError:
                r = None
            except Exception as e:
                r = e
            with lock:
                events.append(("return", t))
            got[t].append(r)

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        ts = [threading.Thread(target=work, args=(t,)) for t in range(n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    open_calls, overlap = 0, 0
    for what, _ in events:
        open_calls += 1 if what == "call" else -1
        overlap += what == "call" and open_calls > 1
    ctx.see("overlapping analyses", overlap)
    for t in range(n):
        for (k, *_), a, b in zip(steps[t], got[t], want[t]):
            kind = calcs[k][0]
            if isinstance(a, Exception):
                raise a
            ctx.equal(a is None, b is None, f"{kind}: concurrent refusal")
            if a is None:
                continue
            for x, y in zip(a, b):
                ctx.near(x, y, f"{kind}: result depends on concurrent analyses")
            ctx.see("concurrent runs compared")
    ctx.nontrivial(profiles, [s[:3] for th in steps for s in th])


MONITORS = [
    Monitor("history", history, 90, 3000, {"runs compared with fresh objects": 300}),
    Monitor("threads", threads, 24, 600, {"concurrent runs compared": 200, "overlapping analyses": 50}),
]
