"""Random tables (any index, column order, extra columns, integer and float columns,
both accepted column names) are imported and compared row by row; profiles of all soil
kinds are exported as built and after nonlinear states; linear profiles are exported,
imported and compared layer by layer and by transfer function. Non-trivial: a table
with at least two different rows."""
import numpy as np
import pandas as pd

from .. import gen
from ..core import Monitor
from ..wavework import spec_props, warm  # noqa: F401
from .c15 import tf_of, upset


def imports(ctx, rng, i):
    site = gen.ps().site
    n = int(rng.integers(1, 10))
    cols = {
        "thickness": rng.uniform(0.1, 30, n),
        "unit_wt": rng.uniform(12, 26, n),
        "damping": rng.uniform(0, float(rng.choice([0.1, 0.1, 0.6, 1e-4])), n),
    }
    if rng.random() < 0.2:
        # From sheets of centimetres to the crust
        cols["thickness"] = 10.0 ** rng.uniform(-3, 4, n)
    if rng.random() < 0.2:
        cols["unit_wt"] = rng.uniform(0.5, 80, n)
    if rng.random() < 0.2:
        cols["damping"][rng.integers(n)] = 0.0
    vname = ["vel_shear", "shear_vel"][i % 2]
    cols[vname] = rng.uniform(90, 2000, n) if rng.random() < 0.7 else 10.0 ** rng.uniform(0.5, 4, n)
    if rng.random() < 0.3:
        for k in ("thickness", "unit_wt", vname):
            if rng.random() < 0.7:
                cols[k] = rng.integers(1, 900, n)
    if rng.random() < 0.3:
        cols["thickness"][-1] = 0
    if rng.random() < 0.15:
        # Sheets of no thickness, also repeated
        cols["thickness"][rng.random(n) < 0.5] = 0
    nname = [None, "name", "soil_type"][int(rng.integers(3))]
    if nname:
        cols[nname] = [str(rng.choice(["clay", "sand", "clay", "", "roché"])) for _ in range(n)]
        if rng.random() < 0.25:
            # Numbered soils
            cols[nname] = rng.integers(0, 4, n)
    if rng.random() < 0.4:
        cols["depth"] = rng.uniform(0, 100, n)
        cols["comment"] = ["x"] * n
    if rng.random() < 0.5 and n > 1:
        # Rows that are equal to others
        k = int(rng.integers(1, n))
        for c in cols:
            cols[c][k] = cols[c][0]
    order = list(cols)
    rng.shuffle(order)
    df = pd.DataFrame({c: cols[c] for c in order})
    ix = int(rng.integers(5))
    if ix == 1:
        df.index = rng.permutation(n)
    elif ix == 2:
        df.index = [f"r{k}" for k in range(n)]
    elif ix == 3:
        df.index = [7] * n
    elif ix == 4:
        df.index = np.arange(n)[::-1] + 100
    wt = float(rng.uniform(0, 20))
    ctx.case(table=df.to_dict("list"), index=[str(k) for k in df.index], wt=wt)
    keep = df.copy(deep=True)
    prof = site.Profile.from_dataframe(df, wt) if rng.random() < 0.5 else site.Profile.from_dataframe(df, wt_depth=wt)
    ctx.true(keep.equals(df), "import changes the table")
    ctx.equal(prof.wt_depth, wt, "import: water table")
    ctx.equal(len(prof), n, "import: number of layers")
    top = 0.0
    for k, la in enumerate(prof):
        kw = dict(rtol=1e-12, row=k)
        ctx.close(la.thickness, cols["thickness"][k], "import: thickness", **kw)
        ctx.close(la.initial_shear_vel, cols[vname][k], "import: velocity", **kw)
        ctx.close(la.shear_vel, cols[vname][k], "import: current velocity", **kw)
        ctx.close(la.unit_wt, cols["unit_wt"][k], "import: unit weight", **kw)
        ctx.close(la.damping, cols["damping"][k], "import: damping", **kw)
        ctx.close(la.damping_min, cols["damping"][k], "import: minimum damping", **kw)
        ctx.close(la.density, cols["unit_wt"][k] / gen.G, "import: density", **kw)
        ctx.true(not la.soil_type.is_nonlinear, "import: linear soil")
        ctx.equal(la.soil_type.name, cols[nname][k] if nname else "", "import: name", row=k)
        ctx.close(la.depth, top, "import: depth", 1e-12)
        top += cols["thickness"][k]
        ctx.see("rows imported")
    ctx.close(site.Profile.from_dataframe(df).wt_depth, 0, "import: default water table")
    # Layers are separate objects
    v1 = prof[-1].initial_shear_vel
    prof[0].initial_shear_vel = 50.0
    if n > 1:
        ctx.close(prof[-1].initial_shear_vel, v1, "import: layers are shared")
    if n > 1:
        ctx.nontrivial(df.to_dict("list"))


def exported(ctx, df, rows, label):
    cols = ["soil_type", "unit_wt", "damping", "thickness", "shear_vel", "depth"]
    ctx.true(set(cols) <= set(df.columns), f"{label}: columns", columns=list(df.columns))
    ctx.equal(len(df), len(rows["vs"]), f"{label}: number of rows")
    ctx.equal(list(df["soil_type"]), rows["name"], f"{label}: names")
    for c, k in (("unit_wt", "uw"), ("thickness", "thick"), ("shear_vel", "vs")):
        ctx.close(np.array(df[c], dtype=float), np.array(rows[k], dtype=float), f"{label}: {c}", 1e-12)
    tops = np.r_[0.0, np.cumsum(rows["thick"])[:-1]]
    ctx.close(np.array(df["depth"], dtype=float), tops, f"{label}: depth", 1e-12, 1e-12)
    for got, want in zip(df["damping"], rows["damping"]):
        ctx.true(got is want or got == want, f"{label}: damping", got=got, want=want)


def exports(ctx, rng, i):
    site = gen.ps().site
    lin = i % 2 == 0
    spec = gen.profile_spec(rng, n=int(rng.integers(1, 8)), nonlinear=False if lin else None, base_linear=True if lin else None)
    if lin:
        # Dampings of the soils themselves
        for la in spec["layers"]:
            la["dmin"] = None
    if i % 7 == 0:
        spec["layers"] = spec["layers"][-1:]
    soils = [gen.build_soil(s) for s in spec["soils"]]
    prof = gen.build_profile(spec, soils)
    thick, vs, rho, damp = [list(x) for x in spec_props(spec, soils)]
    st = [soils[la["soil"]] for la in spec["layers"]]
    rows = {"name": [s.name for s in st], "uw": [s.unit_wt for s in st], "damping": [s.damping for s in st], "thick": thick, "vs": vs}
    ctx.case(profile=spec)
    df = prof.to_dataframe()
    exported(ctx, df, rows, "export")
    df["shear_vel"] = 0.0
    ctx.close(prof.initial_shear_vel, np.array(vs), "export: the table is not a view", 1e-12)
    df = prof.to_dataframe()
    if lin:
        wt = prof.wt_depth
        back = site.Profile.from_dataframe(df, wt)
        ctx.equal(len(back), len(prof), "round trip: number of layers")
        for a, b in zip(back, prof):
            ctx.same([a.thickness, a.unit_wt, a.damping_min, a.damping, a.depth], [b.thickness, b.unit_wt, b.damping_min, b.damping, b.depth], "round trip: layer")
            ctx.close(a.initial_shear_vel, b.initial_shear_vel, "round trip: velocity", 1e-14)
            ctx.equal(a.soil_type.name, b.soil_type.name, "round trip: name")
        if len(prof) > 1:
            total = sum(thick[:-1])
            fields = [("outcrop", 0.0), ("within", total / 2)]
            fr = np.logspace(-1, 1.3, 9)
            for g, w in zip(tf_of(back, fr, fields), tf_of(prof, fr, fields)):
                ctx.close(g, w, "round trip: transfer function", 1e-8, 1e-9 * np.abs(w).max())
        exported(ctx, back.to_dataframe(), rows, "second export")
        ctx.see("round trips")
    else:
        cur = []
        for la, v in zip(prof, vs):
            s = float(10 ** rng.uniform(-5, -2))
            la.strain = s
            mr = 1.0 if la.soil_type.mod_reduc is None else float(la.soil_type.mod_reduc(s))
            cur.append(v * np.sqrt(mr))
        exported(ctx, prof.to_dataframe(), {**rows, "vs": cur}, "export after strains")
        prof.reset_layers()
        exported(ctx, prof.to_dataframe(), rows, "export after reset")
        ctx.see("exports after strains")
    if len(prof) > 1:
        prof[0].thickness = thick[0] = 3.5
        exported(ctx, prof.to_dataframe(), rows, "export after an edit")
    if len(set(vs)) > 1:
        ctx.nontrivial(spec)


MONITORS = [
    Monitor("imports", imports, 240, 8000, {"rows imported": 700}),
    Monitor("exports", exports, 240, 7000, {"round trips": 100, "exports after strains": 100}),
]
