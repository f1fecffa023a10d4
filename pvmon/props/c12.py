"""Random edit histories (build, append, insert at any position, thickness changes of
any layer, water table changes, location queries) over profiles that contain equal
layers and the same soil many times, followed step by step by a plain list of
(thickness, unit weight). After every step all depths and stresses are recomputed from
the list. Non-trivial: a history with at least one insertion or thickness change."""
import numpy as np

from .. import gen
from ..core import Monitor


class Model:
    def __init__(self, rows, wt):
        self.rows, self.wt = rows, wt

    def tops(self):
        return np.r_[0.0, np.cumsum([r[0] for r in self.rows])[:-1]]

    def stress(self):
        return np.r_[0.0, np.cumsum([r[0] * r[1] for r in self.rows])[:-1]]


def judge(ctx, prof, mod, label, rng, layers):
    ctx.equal(len(prof), len(mod.rows), f"{label}: number of layers")
    if not mod.rows:
        return
    ctx.true(all(a is b for a, b in zip(prof, layers)), f"{label}: order of the layers")
    tops, sv = mod.tops(), mod.stress()
    t = np.array([r[0] for r in mod.rows])
    uw = np.array([r[1] for r in mod.rows])
    kw = dict(rtol=1e-11, atol=1e-11, step=label)
    ctx.close(prof.thickness, t, f"{label}: thickness", **kw)
    ctx.close(prof.depth, tops, f"{label}: top depth", **kw)
    ctx.close(prof.depth_mid, tops + t / 2, f"{label}: mid depth", **kw)
    ctx.close(prof.unit_wt, uw, f"{label}: unit weight", **kw)
    for k, la in enumerate(prof):
        ctx.close(la.depth, tops[k], f"{label}: top depth", **kw)
        ctx.close(la.depth_base, tops[k] + t[k], f"{label}: base depth", **kw)
        for frac in (0.0, 1.0, float(rng.random())):
            z = frac * t[k]
            tot = sv[k] + z * uw[k]
            u = gen.G * max(tops[k] + z - mod.wt, 0.0)
            ctx.close(la.stress_vert(z), tot, f"{label}: total stress", 1e-11, 1e-9, layer=k, z=z)
            ctx.close(la.stress_vert(z, effective=True), tot - u, f"{label}: effective stress", 1e-9, 1e-9, layer=k, z=z)
            k0 = float(rng.choice([0.0, 1.0, 0.5, *rng.uniform(0.05, 2.5, 7)]))
            for eff, s in ((False, tot), (True, tot - u)):
                ctx.close(la.stress_mean(z, effective=eff, k0=k0), s * (1 + 2 * k0) / 3, f"{label}: mean stress", 1e-9, 1e-9)
        ctx.close(la.stress_mean(0.0, effective=True), (sv[k] - gen.G * max(tops[k] - mod.wt, 0.0)) * 2 / 3, f"{label}: default mean stress", 1e-9, 1e-9)
        ctx.equal(prof.index(la), k, f"{label}: position of a layer")
        ctx.see("layers judged")
    z = float(rng.uniform(0, tops[-1] + 20))
    ctx.close(prof.pore_pressure(z), gen.G * max(z - mod.wt, 0.0), f"{label}: pore pressure", 1e-12)
    j = int(np.searchsorted(tops, z, side="right") - 1)
    loc = prof.location("outcrop", depth=z)
    ctx.equal(loc.index, j, f"{label}: location")
    if z - tops[j] <= t[j]:
        ctx.close(loc.stress_vert(), sv[j] + (z - tops[j]) * uw[j], f"{label}: stress at a location", 1e-9, 1e-9)
        ctx.close(loc.stress_vert(effective=True), sv[j] + (z - tops[j]) * uw[j] - gen.G * max(z - mod.wt, 0.0),
                  f"{label}: effective stress at a location", 1e-9, 1e-9)


def edits(ctx, rng, i):
    site = gen.ps().site
    soils = [gen.build_soil(gen.soil_spec(rng, None, k)) for k in range(3)]
    wt = float(rng.choice([0.0, rng.uniform(0, 20), 1e4]))
    thicks = [1.0, 2.0, float(rng.choice([2.5, 0.0])), float(rng.uniform(0.1, 30)), int(rng.integers(1, 9))]
    speeds = [150.0, 300.0, float(rng.uniform(100, 900))]

    def new():
        st = soils[int(rng.integers(3))]
        t = thicks[int(rng.integers(5))]
        dm = None if rng.random() < 0.7 else 0.02
        la = site.Layer(st, t, speeds[int(rng.integers(3))], dm)
        return la, (float(t), st.unit_wt)

    layers, rows = [], []
    for _ in range(int(rng.integers(0, 6))):
        la, r = new()
        layers.append(la)
        rows.append(r)
    how = i % 3
    if how == 0:
        prof = site.Profile(list(layers), wt)
    elif how == 1:
        prof = site.Profile(list(layers) or None, wt_depth=wt)
    else:
        prof = site.Profile(wt_depth=wt)
        for la in layers:
            prof.append(la)
    mod = Model(rows, wt)
    log = ["build"]
    ctx.case(rows=list(rows), wt=wt, log=log)
    judge(ctx, prof, mod, "build", rng, layers)
    for _ in range(int(rng.integers(3, 12))):
        op = str(rng.choice(["append", "insert", "insert", "thickness", "thickness", "thickness", "wt", "query", "rebuild"]))
        if op in ("append", "insert"):
            la, r = new()
            if op == "append":
                prof.append(la)
                layers.append(la)
                rows.append(r)
                log.append(op)
            else:
                at = int(rng.integers(-len(rows), len(rows) + 1)) if rows else 0
                prof.insert(at, la)
                layers.insert(at, la)
                rows.insert(at, r)
                log.append(f"insert {at}")
        elif op == "thickness" and rows:
            k = int(rng.integers(len(rows)))
            t = float(rng.choice([rng.uniform(0.1, 40), 2.0, 1.0]))
            if rng.random() < 0.25:
                # A nudge, as in a fit
                t = rows[k][0] * (1 + float(10 ** rng.uniform(-9, -4)))
            prof[k].thickness = t
            rows[k] = (t, rows[k][1])
            log.append(f"thickness {k}")
        elif op == "wt":
            prof.wt_depth = mod.wt = float(rng.uniform(-3, 30))
            log.append(op)
        elif op == "query" and rows:
            prof.location("within", depth=float(rng.uniform(0, 50)))
            prof.vs30() if rng.random() < 0.5 else prof.update_layers()
            log.append(op)
        elif op == "rebuild" and rows:
            # A new profile of the same layers, some replaced by others of the same thickness
            order = list(range(len(rows)))
            if rng.random() < 0.5:
                rng.shuffle(order)
            layers, rows = [layers[k] for k in order], [rows[k] for k in order]
            for k in range(len(rows)):
                if rng.random() < 0.3:
                    st = soils[int(rng.integers(3))]
                    layers[k] = site.Layer(st, layers[k].thickness, speeds[0])
                    rows[k] = (rows[k][0], st.unit_wt)
            prof = site.Profile(list(layers), wt_depth=mod.wt)
            mod = Model(rows, mod.wt)
            log.append(op)
        judge(ctx, prof, mod, log[-1].split()[0], rng, layers)
        ctx.see(f"steps: {op}")
    if any(x.startswith(("insert", "thick")) for x in log):
        ctx.nontrivial(rows, log)


MONITORS = [
    Monitor("edits", edits, 360, 12000, {
        "layers judged": 5000, "steps: insert": 300, "steps: append": 150, "steps: thickness": 300}),
]
