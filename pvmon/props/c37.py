"""Random depth grids, velocities, unit weights, water tables and earth-pressure coefficients;
crustal-model files written plain and compressed, with and without velocity plateaus, jumps
and extra fields; the download replaced by a local stand-in that records the request; and
the generic model in both regions over scalar and array depths. Every value is recomputed
from the definitions. Non-trivial: each distinct grid, file and model."""
import gzip
import io
import json
import pathlib
import urllib.parse
import urllib.request
import urllib.response
import warnings

import numpy as np

from .. import gen
from ..core import Monitor


def grid(rng, n=None):
    n = n or int(rng.integers(1, 40))
    if rng.random() < 0.4:
        step = float(rng.choice([1, 5, 10, 25]))
        return step * np.arange(n)
    return np.r_[0, np.cumsum(rng.uniform(0.2, 60, n - 1))]


def mean_stress(depths, unit_wt, wt, k0):
    """Mean effective stress at the mid-depths, the last depth starting the half-space."""
    out, total = [], 0.0
    for k, (z, g) in enumerate(zip(depths, unit_wt)):
        h = depths[k + 1] - z if k + 1 < len(depths) else 0.0
        vert = total + g * h / 2
        pore = max(0.0, 9.81 * (z + h / 2 - wt))
        out.append((vert - pore) * (1 + 2 * k0) / 3)
        total += g * h
    return np.array(out)


def stress(ctx, rng, i):
    tools, site = gen.ps().tools, gen.ps().site
    depths = grid(rng)
    n = depths.size
    unit_wt = rng.uniform(12.1, 29.9, n)
    wt = float(rng.choice([0.0, rng.uniform(-3, 0), rng.uniform(0, depths[-1] + 1), 1e4]))
    kw = {} if i % 3 == 0 else {"k0": float(rng.uniform(0.2, 1.2))}
    k0 = kw.get("k0", 0.5)
    ctx.case(depths=depths, unit_wt=unit_wt, water_table=wt, k0=k0)
    with warnings.catch_warnings():
        warnings.simplefilter("error")
        got = tools.calc_mean_eff_stress(depths if i % 2 else list(depths), unit_wt if i % 2 else list(unit_wt), wt, **kw)
    want = mean_stress(depths, unit_wt, wt, k0)
    scale = float(np.max(unit_wt)) * depths[-1]
    ctx.close(got, want, "mean effective stress", 1e-9, 1e-12 * scale)
    # The same profile of layers (which takes a slightly lighter water)
    thick = np.r_[np.diff(depths), 0.0]
    prof = site.Profile([site.Layer(site.SoilType("s", g, None, 0.01), h, 500.0) for g, h in zip(unit_wt, thick)], wt)
    water = np.maximum(0, depths + thick / 2 - wt) * (9.81 - 9.80665)
    eff = np.array([la.stress_mean(la.thickness / 2, effective=True, k0=k0) for la in prof])
    ctx.close(got, eff - water * (1 + 2 * k0) / 3, "agreement with the layers of a profile", 1e-9, 1e-9 * scale + 1e-9)
    ctx.see("stresses", n)
    # Unit weights that are not in kN/m3 are reported
    for bad in (1900.0, 120.0, 9.0, 31.0):
        w = unit_wt.copy()
        w[int(rng.integers(n))] = bad
        with warnings.catch_warnings(record=True) as seen:
            warnings.simplefilter("always")
            got = tools.calc_mean_eff_stress(depths, w, wt, **kw)
        ctx.true(any(issubclass(x.category, UserWarning) for x in seen), "warning of the units", data=bad)
        ctx.close(got, mean_stress(depths, w, wt, k0), "stress with a warning", 1e-9, 1e-9 * bad * max(1, depths[-1]) / 10)
        ctx.see("warnings")
    ctx.nontrivial(depths, unit_wt, wt, k0)


# Kamai et al. (2016), Table 2
KEA16 = {
    "California": (0.25, 104, 0.22, 166, 53, -0.00388, 0.0002, 0.195),
    "Japan": (0.2, 40, 0.25, 260, 28, -0.00296, 0, 0.4),
}


def generic(ctx, rng, i):
    from pystrata.generic import kea16_profile

    region = ("California", "Japan")[i % 2]
    b1, b2, b3, b4, b5, b6, b7, b8 = KEA16[region]
    vs30 = float(rng.choice([250, 850, rng.uniform(250, 850), round(rng.uniform(250, 850))]))
    depth = np.sort(rng.uniform(0, float(rng.choice([5, 400, 400, 3000])), int(rng.integers(1, 30))))
    if i % 3 == 0:
        depth[0] = 0
    form = ("array", "list", "scalar", "int")[i % 4]
    arg = {"array": depth, "list": list(depth), "scalar": float(depth[0]), "int": int(depth[-1])}[form]
    ctx.case(region=region, vs30=vs30, depth=arg)
    for name in (region, region.lower(), region.upper()):
        with warnings.catch_warnings():
            warnings.simplefilter("error")
            df = kea16_profile(arg, vs30, name)
        z = np.atleast_1d(np.asarray(arg, dtype=float))
        a2 = b5 * np.exp(b6 * vs30)
        want = (b1 * vs30 + b2) + (b3 * vs30 + b4) * np.log((z + a2) / a2)
        ctx.equal(len(df), z.size, "rows")
        ctx.close(df.index.to_numpy(dtype=float), z, "depths", 1e-12)
        ctx.close(df["vs_median"].to_numpy(), want, "median velocity", 1e-9)
        ctx.close(df["std_vs_ln_units"].to_numpy(), np.full(z.size, b7 * vs30 + b8), "standard deviation", 1e-12)
        ctx.true(np.all(np.diff(df["vs_median"]) >= 0), "velocity that grows with depth")
        ctx.see("generic depths", z.size)
    for v in (249.0, 851.0, 100.0, 1500.0):
        with warnings.catch_warnings(record=True) as seen:
            warnings.simplefilter("always")
            df = kea16_profile(arg, v, region)
        ctx.true(any(issubclass(x.category, UserWarning) for x in seen), "warning outside of the range", data=v)
        ctx.close(df["std_vs_ln_units"].to_numpy(), np.full(z.size, b7 * v + b8), "standard deviation outside of the range", 1e-12)
        ctx.see("warnings")
    for name in ("Taiwan", "", "cal", "california "):
        ctx.raises(lambda name=name: kea16_profile(arg, vs30, name), "unknown region", ValueError)
    ctx.nontrivial(region, vs30, form, depth)


def velocities(rng, n):
    """Plateaus, gradients, jumps and reversals."""
    vs = [float(rng.uniform(150, 600))]
    while len(vs) < n:
        u = rng.random()
        step = 0.0 if u < 0.2 else rng.uniform(-0.012, 0.012) if u < 0.5 else rng.uniform(0, 0.015) if u < 0.75 else rng.uniform(-0.4, 1.2)
        vs.append(float(min(max(vs[-1] * (1 + step), 80), 4000)))
    return np.array(vs)


def document(rng, depths, vs, density, wt):
    doc = {
        "status": "success", "date": "2026-01-01", "request": {"depths": {"depth_start": 0, "depth_vector": list(depths)}, "location": [[1, 2]]},
        "response": {"results": [{"location": {"latitude": 40.0, "longitude": -120.5, "water_table_depth": wt}, "profile": {"vp": [1.0] * len(vs), "vs": list(vs), "density": list(density)}}], "metadata": {}},
    }
    if rng.random() < 0.3:
        # A second location is not the requested one
        doc["response"]["results"].append({"location": {"water_table_depth": -1}, "profile": {"vs": [1.0], "density": [1.0]}})
    return doc


def write(ctx, doc, packed, name="ncm"):
    path = pathlib.Path(ctx.scratch) / (name + (".json.gz" if packed else ".json"))
    with gzip.open(path, "wt") if packed else open(path, "w") as f:
        json.dump(doc, f)
    return path


def crust(ctx, rng, i):
    from pystrata.generic import load_ncm_profile

    n = int(rng.integers(2, 60))
    depths, vs = grid(rng, n), velocities(rng, n)
    density = rng.uniform(1300, 2900, n)
    wt = float(rng.choice([0.0, rng.uniform(-3, 0), rng.uniform(0, 60), rng.uniform(0, 60)]))
    tol = float(rng.choice([0.02, 0.0, rng.uniform(0.001, 0.4)]))
    path = write(ctx, document(rng, depths, vs, density, wt), i % 2)
    if i % 6 == 1:
        # The content decides, not the name
        path = path.rename(path.with_suffix(".json"))
    ctx.case(depths=depths, vs=vs, density=density, water_table=wt, tolerance=tol)
    arg = str(path) if i % 3 else path
    df, got_wt = load_ncm_profile(arg)
    unit_wt = density * 9.81 / 1000
    ctx.equal(got_wt, wt, "water table")
    for col, want in (("depth", depths), ("vel_shear", vs), ("unit_wt", unit_wt), ("thickness", np.r_[np.diff(depths), 0.0])):
        ctx.close(df[col].to_numpy(), want, col, 1e-12, 1e-12)
    scale = 30 * depths[-1]
    ctx.close(df["mean_eff_stress"].to_numpy(), mean_stress(depths, unit_wt, wt, 0.5), "mean effective stress", 1e-9, 1e-12 * scale)
    ctx.see("rows loaded", n)
    # Simplified
    kw = {} if tol == 0.02 and i % 2 else {"simplify_tol": tol}
    sdf, got_wt = load_ncm_profile(arg, simplify=True, **kw)
    ctx.equal(got_wt, wt, "water table of the simplified profile")
    thick = np.r_[np.diff(depths), 0.0]
    tops = sdf["depth"].to_numpy()
    idx = np.searchsorted(depths, tops)
    ctx.near(depths[np.minimum(idx, n - 1)], tops, "interfaces of the simplified profile")
    ctx.true(idx[0] == 0 and np.all(np.diff(idx) > 0), "order of the interfaces")
    bounds = np.r_[idx, n]
    for k in range(len(sdf)):
        a, b = bounds[k], bounds[k + 1]
        first = vs[a]
        ctx.true(np.all(np.abs(vs[a:b] - first) <= tol * first * (1 + 1e-9) + 1e-9), "layers merged beyond the tolerance", data=vs[a:b])
        if b < n:
            ctx.true(abs(vs[b] - first) > tol * first * (1 - 1e-9) - 1e-9, "layers within the tolerance that were not merged", data=vs[a : b + 1])
        h = thick[a:b].sum()
        v, g = float(sdf["vel_shear"].iloc[k]), float(sdf["unit_wt"].iloc[k])
        if h > 0:
            ctx.close(h / v, np.sum(thick[a:b] / vs[a:b]), "travel time of a merged layer", 1e-9)
            ctx.close(h * g, np.sum(thick[a:b] * unit_wt[a:b]), "weight of a merged layer", 1e-7)
        else:
            ctx.close([v, g], [vs[a], unit_wt[a]], "half-space", 1e-9)
        ctx.see("merged layers", b - a > 1)
    sthick = np.r_[np.diff(tops), 0.0]
    ctx.close(sdf["thickness"].to_numpy(), sthick, "thickness of the simplified profile", 1e-12, 1e-12)
    ctx.close(sdf["mean_eff_stress"].to_numpy(), mean_stress(tops, sdf["unit_wt"].to_numpy(), wt, 0.5), "stress of the simplified profile", 1e-9, 1e-12 * scale)
    if idx[-1] > 0:
        m = idx[-1]
        ctx.close(sthick.sum(), depths[m], "total thickness", 1e-12)
        ctx.close(np.sum(sthick / sdf["vel_shear"].to_numpy()), np.sum((thick / vs)[:m]), "total travel time", 1e-9)
        ctx.close(np.sum(sthick * sdf["unit_wt"].to_numpy()), np.sum((thick * unit_wt)[:m]), "overburden", 1e-7)
    ctx.see("simplified rows", len(sdf))
    # Refusals
    doc = document(rng, depths, vs, density, wt)
    doc["response"]["results"] = []
    ctx.raises(lambda: load_ncm_profile(write(ctx, doc, i % 2, "none")), "file without results", ValueError)
    bad = pathlib.Path(ctx.scratch) / "bad.json"
    bad.write_text("not a model")
    ctx.raises(lambda: load_ncm_profile(bad), "file that is not a model", ValueError)
    ctx.nontrivial(depths, vs, tol)


class Service(urllib.request.BaseHandler):
    """Stands in for the web service and records what is asked of it."""

    handler_order = 1

    def __init__(self, doc):
        self.doc, self.urls = doc, []

    def https_open(self, req):
        self.urls.append(req.full_url)
        r = urllib.response.addinfourl(io.BytesIO(json.dumps(self.doc).encode()), {}, req.full_url, 200)
        r.msg = "OK"
        return r

    http_open = https_open


def fetch(ctx, rng, i):
    from pystrata.generic import fetch_ncm_profile, load_ncm_profile

    n = int(rng.integers(2, 20))
    depths, vs, density = grid(rng, n), velocities(rng, n), rng.uniform(1300, 2900, n)
    doc = document(rng, depths, vs, density, 3.5)
    doc["status"] = ("success", "sucess", "error", "failure")[i % 4]
    lat, lon = round(float(rng.uniform(20, 60)), 4), round(float(rng.uniform(-130, -60)), 4)
    kw = {} if i % 3 == 0 else {"depth_start": 0, "depth_step": float(rng.choice([1, 5, 12.5])), "depth_end": float(rng.choice([100, 1500.5]))}
    packed = bool(rng.random() < 0.5)
    if not packed or rng.random() < 0.5:
        kw["gzip_output"] = packed
    path = pathlib.Path(ctx.scratch) / f"fetched-{i}"
    ctx.case(document=doc["status"], location=[lat, lon], options=kw)
    service = Service(doc)
    urllib.request.install_opener(urllib.request.build_opener(service))
    try:
        if i % 4 > 1:
            ctx.raises(lambda: fetch_ncm_profile(lat, lon, path, **kw), "failed request", RuntimeError)
            ctx.true(not path.exists(), "file written by a failed request")
            ctx.see("failed requests")
        else:
            fetch_ncm_profile(lat, lon, str(path) if i % 2 else path, **kw)
            ctx.equal(path.read_bytes()[:2] == b"\x1f\x8b", packed, "compression")
            df, wt = load_ncm_profile(path)
            ctx.equal(wt, 3.5, "water table")
            ctx.close(df["vel_shear"].to_numpy(), vs, "velocities", 1e-12)
            ctx.close(df["depth"].to_numpy(), depths, "depths", 1e-12)
            ctx.close(df["unit_wt"].to_numpy(), density * 9.81 / 1000, "unit weights", 1e-12)
            ctx.see("fetched profiles")
    finally:
        urllib.request.install_opener(None)
    ctx.equal(len(service.urls), 1, "number of requests")
    q = urllib.parse.parse_qs(urllib.parse.urlsplit(service.urls[0]).query)
    ctx.equal([float(x) for x in q["location"][0].split(",")], [lat, lon], "location requested")
    ctx.equal(
        [float(x) for x in q["depths"][0].split(",")],
        [kw.get("depth_start", 0), kw.get("depth_step", 5), kw.get("depth_end", 1e4)], "depths requested",
    )
    path.unlink(missing_ok=True)
    ctx.nontrivial(lat, lon, str(kw))


MONITORS = [
    Monitor("stress", stress, 150, 5000, {"stresses": 1500, "warnings": 400}),
    Monitor("generic", generic, 80, 2000, {"generic depths": 800, "warnings": 200}),
    Monitor("crust", crust, 200, 6000, {"rows loaded": 3000, "merged layers": 200, "simplified rows": 500}),
    Monitor("fetch", fetch, 40, 800, {"fetched profiles": 15, "failed requests": 15}),
]
