"""Every model of the database is loaded through every entry point, compared with a copy
of the published points kept with the checks, evaluated at its points, and every pair of
modulus and damping models is combined into a soil. Separate processes use each entry
point as their first call. Unknown names are requested. Non-trivial: each distinct
(entry point, model) pair."""
import json
import os
import subprocess
import sys

import numpy as np

from .. import gen
from ..core import VERIF, Monitor

ASSUMPTIONS = ["The points in pvmon/data/published_curves.json are those of the database at the pinned commit."]
with open(os.path.join(VERIF, "pvmon", "data", "published_curves.json")) as fp:
    DB = json.load(fp)
NAMES = list(DB)
MR = [n for n in NAMES if "mod_reduc" in DB[n]]
DA = [n for n in NAMES if "damping" in DB[n]]


def check(ctx, curve, name, param, label):
    site = gen.ps().site
    cls = {"mod_reduc": site.ModulusReductionCurve, "damping": site.DampingCurve}[param]
    ctx.true(isinstance(curve, cls), f"{label}: kind of curve", name=name)
    ctx.equal(curve.param, param, f"{label}: parameter", name=name)
    ctx.equal(curve.name, name, f"{label}: name")
    d = DB[name][param]
    ctx.same(curve.strains, np.array(d["strains"], float), f"{label}: strains", name=name)
    ctx.same(curve.values, np.array(d["values"], float), f"{label}: values", name=name)
    ctx.close(curve(curve.strains), d["values"], f"{label}: evaluated at its points", 1e-9, 1e-12, name=name)
    s, v = curve.strains, curve.values
    ctx.true(np.all(s > 0) and np.all(np.diff(s) > 0), f"{label}: strains increase", name=name)
    if param == "mod_reduc":
        ctx.true(np.all((v > 0) & (v <= 1)), f"{label}: modulus reduction", name=name)
    else:
        ctx.true(np.all((v > 0) & (v < 0.5)), f"{label}: damping", name=name)
    ctx.see("curves compared")
    ctx.see("points compared", s.size)


def models(ctx, rng, i):
    site = gen.ps().site
    name = NAMES[i % len(NAMES)]
    ctx.case(name=name)
    known = site.known_published_curves()
    ctx.true(set(NAMES) <= set(known), "a published model is not listed", missing=sorted(set(NAMES) - set(known)))
    ctx.equal(len(known), len(set(known)), "a name is listed twice")
    for cls in (site.NonlinearCurve, site.ModulusReductionCurve, site.DampingCurve):
        for param in ("mod_reduc", "damping"):
            if param not in DB[name]:
                ctx.raises(lambda: cls.from_published(name, param), "a curve that is not published")
                continue
            c = cls.from_published(name, param)
            check(ctx, c, name, param, "loaded curve")
            # What one user does with a curve does not reach the next one
            c.values = c.values * 0.5
            c.strains[:] = c.strains * 1.01
            check(ctx, cls.from_published(name, param), name, param, "loaded again")
            ctx.nontrivial(cls.__name__, name, param)
    if name in MR and name in DA:
        st = site.SoilType.from_published("soil", 18.25, name)
        check(ctx, st.mod_reduc, name, "mod_reduc", "soil")
        check(ctx, st.damping, name, "damping", "soil")
        ctx.equal((st.name, st.unit_wt), ("soil", 18.25), "soil properties")
        ctx.true(st.is_nonlinear, "soil is nonlinear")
        ctx.close(st.damping_min, DB[name]["damping"]["values"][0], "minimum damping")
    for bad in ("nothing", name + " ", name.lower() + "x", ""):
        ctx.raises(lambda: site.NonlinearCurve.from_published(bad, "mod_reduc"), "an unknown name")
        ctx.raises(lambda: site.SoilType.from_published("s", 18.0, bad), "an unknown name for a soil")
        ctx.raises(lambda: site.SoilType.from_published("s", 18.0, MR[0], bad or "?"), "an unknown damping name")
        ctx.raises(lambda: site.SoilType.from_published("s", 18.0, MR[0], bad), "a damping name that is not listed")
        ctx.see("refusals", 4)
    ctx.raises(lambda: site.NonlinearCurve.from_published(name, "unit_wt"), "an unknown parameter")


def pairs(ctx, rng, i):
    """One modulus model with every damping model."""
    site = gen.ps().site
    m = MR[i % len(MR)]
    ctx.case(model=m)
    for d in DA:
        st = (
            site.SoilType.from_published("soil", 19.0, m, d)
            if rng.random() < 0.5
            else site.SoilType.from_published(name="soil", unit_wt=19.0, model=m, model_damping=d)
        )
        check(ctx, st.mod_reduc, m, "mod_reduc", "pair")
        check(ctx, st.damping, d, "damping", "pair")
        ctx.close(st.damping_min, DB[d]["damping"]["values"][0], "pair: minimum damping")
        la = site.Layer(st, 1.0, 300.0)
        s = float(10 ** rng.uniform(-6, -1))
        la.strain = s
        ctx.close(la.shear_mod_reduc, st.mod_reduc(s), "pair: layer modulus", 1e-12)
        ctx.close(la.damping, st.damping(s), "pair: layer damping", 1e-9)
        ctx.nontrivial(m, d)


FIRST = {
    "list": "r = site.known_published_curves()",
    "curve": "c = site.NonlinearCurve.from_published('Idriss (1990), Clay', 'damping'); r = [list(c.strains), list(c.values)]",
    "soil": "s = site.SoilType.from_published('s', 18.0, 'Idriss (1990), Clay'); r = [list(s.damping.strains), list(s.damping.values)]",
}


def first_call(ctx, rng, i):
    how = list(FIRST)[i % 3]
    ctx.case(first=how)
    code = f"import json\nfrom pystrata import site\n{FIRST[how]}\nprint('RESULT ' + json.dumps(r))"
    p = subprocess.run([sys.executable, "-W", "ignore", "-c", code], capture_output=True, text=True, timeout=100, cwd=ctx.scratch)
    ctx.equal(p.returncode, 0, f"first call {how}", stderr=p.stderr[-800:])
    r = json.loads(p.stdout.split("RESULT ", 1)[1])
    if how == "list":
        ctx.true(set(NAMES) <= set(r), "first call: list")
    else:
        d = DB["Idriss (1990), Clay"]["damping"]
        ctx.equal(r, [list(map(float, d["strains"])), list(map(float, d["values"]))], f"first call {how}")
    ctx.see("processes")
    ctx.nontrivial(how)


MONITORS = [
    Monitor("models", models, len(NAMES), len(NAMES) * 2, {"curves compared": 300, "refusals": 300}),
    Monitor("pairs", pairs, len(MR), len(MR) * 10, {"curves compared": 1500}),
    Monitor("first_call", first_call, 3, 3, {"processes": 3}),
]
