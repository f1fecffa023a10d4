"""Seeded workload generators.

Everything generated is a *specification* (plain data); `build_*` turn it into
objects of the code under test and the reference models read it directly.
"""
import copy

import numpy as np

G = 9.80665


def ps():
    import pystrata

    return pystrata


# --------------------------------------------------------------------- curves
def curve_points(rng, kind, n=None):
    """Strains and values of one nonlinear curve."""
    n = n or int(rng.integers(2, 24))
    lo, hi = rng.uniform(-6, -4.5), rng.uniform(-2.5, -0.5)
    x = np.sort(rng.uniform(lo, hi, n)) if rng.random() < 0.3 else np.linspace(lo, hi, n)
    x[0], x[-1] = lo, hi
    strains = 10.0**x
    while np.any(np.diff(strains) <= 0):
        x = np.linspace(lo, hi, n)
        strains = 10.0**x
    ref = 10.0 ** rng.uniform(-4, -2.3)
    a = rng.uniform(0.7, 1.2)
    mr = 1 / (1 + (strains / ref) ** a)
    if kind == "mod_reduc":
        v = mr
        if rng.random() < 0.5:
            v = v / v[0]
    else:
        dmin, dmax = rng.uniform(0.002, 0.04), rng.uniform(0.1, 0.3)
        v = dmin + (dmax - dmin) * (1 - mr) ** rng.uniform(0.8, 1.3)
    return strains, v


def soil_spec(rng, nonlinear=None, i=0):
    """One soil type; nonlinear None means any."""
    if nonlinear is None:
        nonlinear = rng.random() < 0.6
    base = {"name": f"soil-{i}", "unit_wt": round(float(rng.uniform(12, 26)), 2)}
    if not nonlinear:
        return {
            **base,
            "kind": "linear",
            "damping": float(rng.choice([0.0, 0.001, 0.01, 0.05, rng.uniform(0, 0.15)])),
        }
    u = rng.random()
    if u < 0.45:
        s1, v1 = curve_points(rng, "mod_reduc")
        s2, v2 = curve_points(rng, "damping")
        if rng.random() < 0.5:
            s2, v2 = s1, np.interp(np.log(s1), np.log(s2), v2)
        spec = {**base, "kind": "curves", "mr": (s1, v1), "d": (s2, v2)}
        w = rng.random()
        if w < 0.1:
            spec["mr"] = None
        elif w < 0.2:
            spec["d"] = float(rng.uniform(0.005, 0.1))
        return spec
    if rng.random() < 0.3:
        return {**base, "kind": "model", **model_spec(rng)}
    if u < 0.75:
        return {
            **base,
            "kind": "darendeli",
            "plas_index": float(rng.choice([0, 15, 30, 60])),
            "ocr": float(rng.choice([1, 2, 4])),
            "stress_mean": float(rng.uniform(20, 800)),
        }
    if u < 0.85:
        return {
            **base,
            "kind": "menq",
            "coef_unif": float(rng.uniform(1.2, 20)),
            "diam_mean": float(rng.uniform(0.1, 10)),
            "stress_mean": float(rng.uniform(20, 800)),
            "num_cycles": 10.0,
        }
    return {
        **base,
        "kind": "published",
        "model": str(
            rng.choice(
                ["Vucetic & Dobry (91), PI=15", "EPRI (93), PI=10", "EPRI (93), 20-50 ft",
                 "GeoMatrix (1990), 0-50 ft"]
            )
        )
        if rng.random() < 0.5
        else int(rng.integers(1000)),
    }


def model_spec(rng):
    """One of the empirical models with some of its parameters given."""
    p = {"stress_mean": float(10 ** rng.uniform(1.2, 3))}
    cls = str(rng.choice(["Darendeli", "Darendeli", "Menq", "Rollins", "TwoParam", "Alemu", "Wang", "Kishida"]))
    if cls == "Darendeli":
        p.update(
            plas_index=float(rng.uniform(0, 100)), ocr=float(rng.uniform(1, 8)),
            freq=float(10 ** rng.uniform(-0.5, 1.3)), num_cycles=float(10 ** rng.uniform(0, 2)),
        )
    elif cls == "Menq":
        p.update(coef_unif=float(rng.uniform(1.2, 20)), diam_mean=float(rng.uniform(0.1, 10)), num_cycles=float(10 ** rng.uniform(0, 2)))
    elif cls == "Rollins":
        p.update(coef_unif=float(rng.uniform(1.2, 50)), num_cycles=float(10 ** rng.uniform(0, 1.5)))
    elif cls == "Alemu":
        p.update(plas_index=float(rng.uniform(0, 30)), ocr=float(rng.uniform(1, 4)), fines_cont=float(rng.uniform(0.5, 1)))
    elif cls == "Wang":
        p["soil_group"] = str(rng.choice(["clean_sand_and_gravel", "nonplastic_silty_sand", "clayey_soil"]))
    elif cls == "Kishida":
        p = {"stress_vert": float(rng.uniform(20, 500)), "organic_content": float(rng.uniform(15, 70))}
    if cls in ("Darendeli", "Menq", "Rollins") and rng.random() < 0.3:
        p["damping_min"] = float(rng.uniform(0.002, 0.04))
    if rng.random() < 0.3:
        p["strains"] = np.logspace(rng.uniform(-6, -5), rng.uniform(-2.5, -1), int(rng.integers(5, 40)))
    return {"model": cls, "args": {k: v for k, v in p.items() if k in ("stress_mean", "soil_group") or rng.random() < 0.8}}


ONE_SIDED = ("GeoMatrix (1990), >", "GeoMatrix (1990), 150", "Iwasaki", "Seed & Idriss, Sand Upper", "Seed & Idriss, Sand Lower")
MODELS = {"Darendeli": "DarendeliSoilType", "Menq": "MenqSoilType", "Rollins": "RollinsEtAlSoilType",
          "TwoParam": "TwoParamModifiedHyperbolicSoilType", "Alemu": "AlemuEtAlSoilType",
          "Wang": "WangSoilType", "Kishida": "KishidaSoilType"}


def build_curve(param, points, name="", limits=None):
    site = ps().site
    cls = site.ModulusReductionCurve if param == "mod_reduc" else site.DampingCurve
    return cls(name, points[0], points[1], limits=limits)


def build_soil(spec):
    site = ps().site
    k = spec["kind"]
    if k == "linear":
        return site.SoilType(spec["name"], spec["unit_wt"], None, spec["damping"])
    if k == "curves":
        mr = None if spec["mr"] is None else build_curve("mod_reduc", spec["mr"])
        d = spec["d"] if isinstance(spec["d"], float) else build_curve("damping", spec["d"])
        return site.SoilType(spec["name"], spec["unit_wt"], mr, d)
    if k == "darendeli":
        return site.DarendeliSoilType(
            name=spec["name"],
            unit_wt=spec["unit_wt"],
            plas_index=spec["plas_index"],
            ocr=spec["ocr"],
            stress_mean=spec["stress_mean"],
        )
    if k == "menq":
        return site.MenqSoilType(
            name=spec["name"],
            unit_wt=spec["unit_wt"],
            coef_unif=spec["coef_unif"],
            diam_mean=spec["diam_mean"],
            stress_mean=spec["stress_mean"],
            num_cycles=spec["num_cycles"],
        )
    if k == "published":
        known = site.known_published_curves()
        model = spec["model"]
        if isinstance(model, int):
            # Tables with both modulus reduction and damping
            known = [k for k in known if not k.startswith(ONE_SIDED)]
            model = known[model % len(known)]
        elif model not in known:
            model = known[0]
        return site.SoilType.from_published(spec["name"], spec["unit_wt"], model)
    if k == "model":
        return getattr(site, MODELS[spec["model"]])(
            name=spec["name"], unit_wt=spec["unit_wt"], **copy.deepcopy(spec["args"])
        )
    raise ValueError(k)


# ------------------------------------------------------------------- profiles
def profile_spec(
    rng,
    n=None,
    nonlinear=None,
    max_thick=40.0,
    vs=(90.0, 1500.0),
    base_linear=None,
    allow_equal=True,
    max_atten=60.0,
):
    """Layers over a half-space; soils may be shared between layers."""
    n = int(n if n is not None else rng.integers(1, 13))
    ns = max(1, int(rng.integers(1, n + 2)))
    soils = [soil_spec(rng, nonlinear, i) for i in range(ns)]
    if base_linear or (base_linear is None and rng.random() < 0.85):
        base = soil_spec(rng, False, "rock")
    else:
        base = soil_spec(rng, nonlinear, "rock")
    layers = []
    for i in range(n):
        k = int(rng.integers(ns))
        thick = float(
            rng.choice([rng.uniform(0.2, 3), rng.uniform(1, 10), rng.uniform(3, max_thick)])
        )
        # Multiples of 2^-10 m: depths are exact in whatever order they are summed
        thick = max(round(thick * 1024), 128) / 1024
        v = float(np.exp(rng.uniform(np.log(vs[0]), np.log(vs[1]))))
        if rng.random() < 0.1:
            thick, v = float(max(1, round(thick))), float(round(v))
        dmin = None
        if rng.random() < 0.35:
            dmin = float(rng.uniform(0.001, 0.06))
        lay = {"soil": k, "thickness": thick, "vs": v, "dmin": dmin}
        if allow_equal and i and rng.random() < 0.15:
            # A layer equal to an earlier one
            lay = dict(layers[int(rng.integers(i))])
        layers.append(lay)
    soils.append(base)
    vmax = max(la["vs"] for la in layers)
    layers.append(
        {
            "soil": ns,
            "thickness": float(rng.choice([0.0, 0.0, round(rng.uniform(1, 30) * 64) / 64])),
            "vs": float(
                rng.choice([rng.uniform(700, 3500), vmax * rng.uniform(1.0, 2.0), rng.uniform(*vs)])
            ),
            "dmin": float(rng.uniform(0.001, 0.02)) if rng.random() < 0.3 else None,
        }
    )
    return {
        "soils": soils,
        "layers": layers,
        "wt_depth": float(rng.choice([0.0, rng.uniform(0, 40), 1000.0])),
    }


def scaled(rng, spec):
    """The same profile as thin sheets or at the scale of the crust."""
    k = float(rng.choice([2.0**-4, 2.0**-6, 64.0, 256.0]))
    for la in spec["layers"]:
        la["thickness"] *= k
        if k > 1:
            la["vs"] *= 2.0
    return spec


def build_profile(spec, soils=None):
    site = ps().site
    soils = soils or [build_soil(s) for s in spec["soils"]]
    layers = []
    for la in spec["layers"]:
        st = soils[la["soil"]]
        if la["dmin"] is None:
            layers.append(site.Layer(st, la["thickness"], la["vs"]))
        else:
            layers.append(site.Layer(st, la["thickness"], la["vs"], la["dmin"]))
    return site.Profile(layers, spec["wt_depth"])


def linear_props(spec):
    """thickness, vs, rho, damping per layer of a profile of linear soils."""
    out = []
    for la in spec["layers"]:
        s = spec["soils"][la["soil"]]
        d = la["dmin"] if la["dmin"] is not None else s["damping"]
        out.append((la["thickness"], la["vs"], s["unit_wt"] / G, d))
    return [np.array(c, dtype=float) for c in zip(*out)]


# -------------------------------------------------------------------- motions
def wave(rng, n, dt, pga=None, kind=None):
    """A record: modulated noise, pulse, sine sweep, spike, or offset noise."""
    kind = kind or str(rng.choice(["noise", "noise", "noise", "pulse", "sweep", "spike", "offset"]))
    t = dt * np.arange(n)
    T = t[-1] if n > 1 else dt
    if kind in ("noise", "offset"):
        x = rng.standard_normal(n)
        # Colour the noise so that motions carry low frequencies
        c = np.exp(-2 * np.pi * dt * rng.uniform(0.5, 10))
        y = np.empty(n)
        acc = 0.0
        for i in range(n):
            acc = c * acc + x[i]
            y[i] = acc
        a = y * np.exp(-(((t - 0.35 * T) / (0.25 * T + dt)) ** 2))
        if kind == "offset":
            a = a + 0.3 * np.abs(a).max()
    elif kind == "pulse":
        f = rng.uniform(0.3, 5)
        a = np.sin(2 * np.pi * f * t) * np.exp(-(((t - 0.4 * T) * f / 1.5) ** 2))
    elif kind == "sweep":
        a = np.sin(2 * np.pi * (0.2 + 4 * t / max(T, dt)) * t) * np.hanning(n)
    else:
        a = np.zeros(n)
        a[int(rng.integers(n))] = 1.0
        a[int(rng.integers(n))] += -0.7
    peak = np.abs(a).max()
    if peak == 0:
        a[0] = peak = 1.0
    pga = pga if pga is not None else 10 ** rng.uniform(-3, -0.3)
    return a * (pga / peak)


def ts_spec(rng, n=None, pga=None, kind=None, dt=None, fa=None):
    n = int(n or rng.choice([64, 100, 255, 256, 257, 500, 777, 1000, 1024]))
    if dt is None:
        dt = rng.choice([0.005, 0.01, 0.02]) if rng.random() < 0.8 else rng.choice([0.001, 0.0025, 1 / 128, 0.04, 0.1])
    dt = float(dt)
    fa_length = None
    if fa or (fa is None and rng.random() < 0.15):
        fa_length = int(n + rng.integers(0, n))
    return {"kind": "ts", "dt": dt, "accels": wave(rng, n, dt, pga, kind), "fa_length": fa_length}


def build_motion(spec, cls=None):
    m = ps().motion
    if spec["kind"] == "ts":
        cls = cls or m.TimeSeriesMotion
        return cls("file", "desc", spec["dt"], spec["accels"].copy(), spec["fa_length"])
    if spec["kind"] == "rvt":
        cls = cls or m.RvtMotion
        return cls(
            spec["freqs"].copy(),
            spec["amps"].copy(),
            duration=spec["duration"],
            peak_calculator=spec.get("peak"),
            calc_kwds=spec.get("calc_kwds"),
        )
    if spec["kind"] == "compat":
        cls = cls or m.CompatibleRvtMotion
        return cls(spec["osc_freqs"].copy(), spec["osc_accels"].copy(), **copy.deepcopy(spec["kwds"]))
    if spec["kind"] == "source":
        cls = cls or m.SourceTheoryRvtMotion
        return cls(*spec["args"], **copy.deepcopy(spec["kwds"]))
    if spec["kind"] == "freqs":
        return m.Motion(spec["freqs"].copy())
    raise ValueError(spec["kind"])


def rvt_spec(rng, n=None, scale=None):
    """Brune-like spectrum [g-s]."""
    n = int(n or rng.integers(40, 200))
    f = np.logspace(-1.3 if rng.random() < 0.7 else rng.uniform(-2, -0.7), np.log10(rng.uniform(25, 60) if rng.random() < 0.8 else rng.uniform(15, 100)), n)
    fc, k = rng.uniform(0.1, 3), rng.uniform(0.01, 0.06)
    amp = (f**2 / (1 + (f / fc) ** 2)) * np.exp(-np.pi * k * f)
    amp *= (scale if scale is not None else 10 ** rng.uniform(-2.5, -0.5)) / amp.max()
    return {
        "kind": "rvt",
        "freqs": f,
        "amps": amp,
        "duration": float(rng.uniform(2, 30) if rng.random() < 0.8 else 10 ** rng.uniform(-0.5, 2.2)),
        "peak": str(rng.choice(["V75", "BJ84", "LP99", "CLH56"])) if rng.random() < 0.5 else None,
    }


def freqs_spec(rng, n=None, fmax=50.0, zero=None, low=False):
    n = int(n or rng.integers(5, 120))
    f = np.sort(10 ** rng.uniform(-2, np.log10(fmax), n))
    if rng.random() < 0.5:
        f = np.linspace(fmax / n, fmax, n)
    if zero or (zero is None and rng.random() < 0.7):
        f[0] = 0.0
    if low:
        # Nearly, but not, zero
        f = np.sort(np.r_[f, 10 ** rng.uniform(-7, -2, 4)])
    return {"kind": "freqs", "freqs": f}


def location_spec(rng, prof, field=None):
    """A location by index or by depth."""
    nl = len(prof["layers"])
    total = sum(la["thickness"] for la in prof["layers"][:-1])
    field = field or str(rng.choice(["outcrop", "within", "incoming_only"]))
    if rng.random() < 0.5:
        i = int(rng.integers(nl))
        if rng.random() < 0.3:
            i -= nl
        return {"field": field, "index": i, "depth": None}
    u = rng.random()
    if u < 0.15:
        d = 0.0
    elif u < 0.3:
        d = float(np.cumsum([0] + [la["thickness"] for la in prof["layers"][:-1]])[int(rng.integers(nl))])
    elif u < 0.4:
        d = total + float(rng.uniform(0, 30))
    else:
        d = float(rng.uniform(0, total))
    return {"field": field, "index": None, "depth": d}


def build_location(profile, spec):
    kw = {k: spec[k] for k in ("index", "depth") if spec[k] is not None}
    return profile.location(spec["field"], **kw)


def resolve(prof, loc):
    """(layer index, depth within) of a location spec by definition."""
    nl = len(prof["layers"])
    if loc["index"] is not None:
        return loc["index"] % nl, 0.0
    top = 0.0
    for i, la in enumerate(prof["layers"][:-1]):
        if top <= loc["depth"] < top + la["thickness"]:
            return i, loc["depth"] - top
        top = top + la["thickness"]
    return nl - 1, loc["depth"] - top


def base_loc(field="outcrop"):
    return {"field": field, "index": -1, "depth": None}
