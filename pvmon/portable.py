"""Batch of analyses run with and without the just-in-time compiler."""
import os
import pickle
import sys
import warnings

import numpy as np

from . import gen


def analyses(seed, count):
    """Yield (label, spec, runner) for a batch; runner returns named arrays."""
    rng = np.random.default_rng(seed)
    for k in range(count):
        kind = ("LE", "LE", "QWL", "EQL", "FDM")[k % 5]
        if kind == "QWL":
            spec = gen.profile_spec(rng)
            if rng.random() < 0.3:
                spec["layers"] = spec["layers"][-1:] if rng.random() < 0.2 else spec["layers"]
            m = gen.freqs_spec(rng, zero=False, fmax=30)
            m["freqs"] = np.maximum(m["freqs"], 0.05)
        elif kind == "LE":
            spec = gen.profile_spec(rng)
            if rng.random() < 0.25:
                spec = gen.scaled(rng, spec)
            m = gen.freqs_spec(rng, fmax=15, low=k % 10 == 1) if rng.random() < 0.5 else gen.ts_spec(rng, n=128)
        else:
            spec = gen.profile_spec(rng, n=int(rng.integers(1, 6)), nonlinear=True, max_thick=12)
            m = gen.ts_spec(rng, n=256, pga=10 ** rng.uniform(-3, -1), kind="noise")
            if rng.random() < 0.25:
                m = gen.rvt_spec(rng, n=60, scale=0.02)
        opts = {
            "site_atten": float(rng.uniform(0.001, 0.05)) if rng.random() < 0.5 else None,
            "qwl": str(rng.choice(["standard", "ba23"])),
            "fdm": str(rng.choice(["ka02", "zr15", "ko:20"])),
            "ratio": float(rng.uniform(0.4, 1.0)),
        }
        if len(spec["layers"]) == 1:
            opts["qwl"] = "standard"
        locs = [gen.location_spec(rng, spec) for _ in range(3)]
        base = gen.location_spec(rng, spec, "outcrop") if rng.random() < 0.3 else gen.base_loc()
        yield kind, dict(profile=spec, motion=m, opts=opts, locs=locs, base=base)


def compute(kind, s):
    p = gen.ps().propagation
    prof = gen.build_profile(s["profile"])
    mot = gen.build_motion(s["motion"])
    o = s["opts"]
    out = {}
    if kind == "QWL":
        calc = p.QuarterWaveLenCalculator(site_atten=o["site_atten"], method=o["qwl"])
    elif kind == "LE":
        calc = p.LinearElasticCalculator()
    elif kind == "EQL":
        calc = p.EquivalentLinearCalculator(strain_ratio=o["ratio"], tolerance=0.0, max_iterations=6, strain_limit=0.5)
    else:
        calc = p.FrequencyDependentEqlCalculator(
            method=o["fdm"], strain_ratio=o["ratio"], tolerance=0.0, max_iterations=4, strain_limit=0.5
        )
    base = gen.build_location(prof, s["base"])
    calc(mot, prof, base)
    if kind == "QWL":
        out["crustal_amp"], out["site_term"] = calc.crustal_amp, calc.site_term
        return out
    out["freqs"] = np.array(mot.freqs)
    for j, ls in enumerate(s["locs"]):
        lo = gen.build_location(prof, ls)
        out[f"wave {j}"] = calc.wave_at_location(lo)
        out[f"accel {j}"] = calc.calc_accel_tf(base, lo)
        wi = gen.build_location(prof, {**ls, "field": "within"})
        out[f"strain {j}"] = calc.calc_strain_tf(lo, wi)
        out[f"stress {j}"] = calc.calc_stress_tf(base, wi, damped=bool(j % 2))
    if kind in ("EQL", "FDM"):
        for j, la in enumerate(prof[:-1]):
            out[f"strain of layer {j}"] = np.asarray(la.strain)
            out[f"modulus of layer {j}"] = np.asarray(la.shear_mod)
            out[f"damping of layer {j}"] = np.asarray(la.damping)
            out[f"max strain of layer {j}"] = np.asarray(la.strain_max)
    return out


def batch(seed, count):
    res = []
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        for kind, s in analyses(seed, count):
            try:
                res.append((kind, "ok", {k: np.array(v) for k, v in compute(kind, s).items()}))
            except Exception as e:
                res.append((kind, f"{type(e).__name__}: {e}", {}))
    return res


def main():
    # The package's dependencies use the compiler themselves: only hide it from
    # pystrata, after they were loaded.
    import pykooh  # noqa: F401
    import pyrvt  # noqa: F401

    for name in [m for m in sys.modules if m == "numba" or m.startswith("numba.")]:
        if name == "numba":
            sys.modules[name] = None
    try:
        import pystrata.propagation as p

        has = bool(getattr(p, "numba", None))
    except Exception as e:
        print(f"IMPORT {type(e).__name__}: {e}")
        return
    seed, count, path = [int(x) for x in sys.argv[1].split(",")], int(sys.argv[2]), sys.argv[3]
    with open(path, "wb") as fp:
        pickle.dump((has, batch(seed, count)), fp)
    print("DONE")


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    main()
