"""Random parameters inside the ranges of every empirical soil model (Darendeli, Menq,
two-parameter hyperbolic, Wang and Stokoe at every level, Alemu, Rollins, Kishida), with
default, custom and dense strains, explicit and default minimum damping, names and
coefficients, compared with an independent transcription of the published equations and
with the physical limits. Non-trivial: each distinct model, level and option set."""
import numpy as np

from .. import gen, soilref
from ..core import Monitor

ASSUMPTIONS = [
    "The publications are not available offline: coefficients and equations in pvmon/soilref.py are those of the "
    "pinned commit, rewritten independently. Rollins, Kishida and Darendeli were checked against the values in the tests."
]


def strains_of(rng):
    u = rng.random()
    if u < 0.5:
        return None, np.logspace(-6, -1.5, 20)
    if u < 0.75:
        s = np.logspace(rng.uniform(-6, -5), rng.uniform(-3, -1), int(rng.integers(2, 60)))
    else:
        s = np.sort(10 ** rng.uniform(-6, -1.3, int(rng.integers(2, 30))))
        while np.any(np.diff(s) <= 0):
            s = np.sort(10 ** rng.uniform(-6, -1.3, s.size))
    return (s if rng.random() < 0.6 else list(s)), s


def maybe(rng, args, key, value, p=0.8):
    if rng.random() < p:
        args[key] = value
    return args


def admissible(ctx, st, label):
    mr, d = np.array(st.mod_reduc.values), np.array(st.damping.values)
    ctx.true(np.all(np.isfinite(mr)) and np.all(np.isfinite(d)), f"{label}: finite")
    ctx.true(np.all(mr > 0) and np.all(mr <= 1 + 1e-12), f"{label}: modulus reduction in (0, 1]")
    ctx.true(np.all(np.diff(mr) <= 1e-12), f"{label}: modulus reduction increases with strain")
    ctx.true(np.all(d > 0), f"{label}: damping is not positive")
    ctx.true(st.is_nonlinear, f"{label}: nonlinear")


def compare(ctx, st, want, strains, label, name, unit_wt, given_name):
    ctx.same(st.mod_reduc.strains, strains, f"{label}: strains of modulus reduction")
    ctx.same(st.damping.strains, strains, f"{label}: strains of damping")
    ctx.close(st.mod_reduc.values, want[0], f"{label}: modulus reduction", 1e-9)
    # The hyperbola's damping cancels at small strains: error of eps / (strain / reference strain)^2
    atol = 1e-12
    if label in ("darendeli", "menq", "rollins"):
        atol = 1e-10 + 3e-14 * (1 / want[0][0] - 1) ** -2
    ctx.close(st.damping.values, want[1], f"{label}: damping", 1e-7, atol)
    ctx.close(st.damping_min, want[1][0], f"{label}: minimum damping of the soil", 1e-7, atol)
    if unit_wt is not None:
        ctx.equal(st.unit_wt, unit_wt, f"{label}: unit weight")
    if given_name:
        ctx.equal(st.name, name, f"{label}: given name")
    else:
        ctx.true(isinstance(st.name, str), f"{label}: name")
    admissible(ctx, st, label)
    # Through a layer, at a strain of the model
    k = int(rng_pick(strains))
    la = gen.ps().site.Layer(st, 1.0, 200.0)
    la.strain = float(strains[k])
    ctx.close(la.shear_mod_reduc, np.clip(want[0][k], 0.001, 1), f"{label}: in a layer", 1e-8)
    ctx.close(la.damping, np.clip(want[1][k], 0, 0.49), f"{label}: damping in a layer", 1e-7, 2 * atol)
    ctx.see("soils compared")
    ctx.see("points compared", 2 * len(strains))


def rng_pick(strains):
    return len(strains) // 3


def common(rng, args):
    name = str(rng.choice(NAMES))
    uw = float(rng.uniform(12, 24))
    args["unit_wt"] = uw
    if name or rng.random() < 0.5:
        args["name"] = name
    arg, s = strains_of(rng)
    if arg is not None:
        args["strains"] = arg
    return name, uw, s


NAMES = ["", "", "my soil", "Darendeli soft clay", "Menq (gravel)", "Wang & Stokoe sand", "Kishida peat", "alemu", " padded ", "1", "tuff/\u03b2, weathered"]


def wide(rng, lo, hi, elo, ehi, log=True):
    """A value of the usual range, or now and then of a far wider one."""
    if rng.random() < 0.25:
        lo, hi = elo, ehi
    return float(np.exp(rng.uniform(np.log(lo), np.log(hi)))) if log else float(rng.uniform(lo, hi))


def physical(args):
    return {k: v for k, v in args.items() if k not in ("name", "unit_wt", "strains")}


def hyperbolic(ctx, rng, i):
    site = gen.ps().site
    model = ["darendeli", "menq", "rollins", "alemu", "two_param"][i % 5]
    args = {}
    if model == "darendeli":
        maybe(rng, args, "plas_index", float(rng.choice([0, rng.uniform(0, 100), rng.uniform(100, 300)], p=[0.4, 0.45, 0.15])))
        maybe(rng, args, "ocr", wide(rng, 1, 8, 0.5, 60))
        maybe(rng, args, "stress_mean", wide(rng, 10, 2500, 0.3, 20000))
        maybe(rng, args, "freq", wide(rng, 0.3, 20, 0.05, 100), 0.5)
        maybe(rng, args, "num_cycles", wide(rng, 1, 50, 1, 5000), 0.5)
        maybe(rng, args, "damping_min", 0.0 if rng.random() < 0.1 else wide(rng, 0.001, 0.05, 0.0005, 0.15), 0.35)
        make, ref = site.DarendeliSoilType, soilref.darendeli
    elif model == "menq":
        maybe(rng, args, "coef_unif", wide(rng, 1.1, 50, 1.0, 300))
        maybe(rng, args, "diam_mean", wide(rng, 0.05, 20, 0.01, 200))
        maybe(rng, args, "stress_mean", wide(rng, 10, 2500, 0.3, 20000))
        maybe(rng, args, "num_cycles", wide(rng, 1, 50, 1, 5000), 0.5)
        maybe(rng, args, "damping_min", 0.0 if rng.random() < 0.1 else wide(rng, 0.001, 0.05, 0.0005, 0.15), 0.35)
        make, ref = site.MenqSoilType, soilref.menq
    elif model == "rollins":
        maybe(rng, args, "stress_mean", wide(rng, 10, 1600, 0.5, 4000))
        maybe(rng, args, "coef_unif", 1.0 if rng.random() < 0.1 else wide(rng, 1.1, 50, 1.0, 300), 0.6)
        maybe(rng, args, "num_cycles", wide(rng, 1, 50, 1, 5000), 0.5)
        maybe(rng, args, "damping_min", 0.0 if rng.random() < 0.1 else wide(rng, 0.001, 0.05, 0.0005, 0.15), 0.35)
        make, ref = site.RollinsEtAlSoilType, soilref.rollins
    elif model == "alemu":
        maybe(rng, args, "plas_index", float(rng.choice([0, rng.uniform(0, 32), rng.uniform(32, 90)], p=[0.4, 0.45, 0.15])))
        maybe(rng, args, "ocr", wide(rng, 1, 9, 0.5, 40))
        maybe(rng, args, "stress_mean", wide(rng, 10, 125, 1, 2000))
        maybe(rng, args, "fines_cont", float(rng.uniform(0.5 if rng.random() < 0.8 else 0.05, 1)))
        make, ref = site.AlemuEtAlSoilType, soilref.alemu
    else:
        maybe(rng, args, "stress_mean", wide(rng, 10, 1600, 0.5, 4000))
        make, ref = site.TwoParamModifiedHyperbolicSoilType, soilref.two_param
    phys = physical(args)
    name, uw, s = common(rng, args)
    if model == "two_param" and rng.random() < 0.4:
        c = [float(x * rng.uniform(0.8, 1.2)) for x in (1.04, 0.438, -0.007, 0.011, 0.318, 1.47, -0.2, 13.125, 1.187, 0.11, 0.23)]
        args["coeffs"] = site.TwoParamModifiedHyperbolicCoeffs(*c)
        phys["coeffs"] = c
    ctx.case(model=model, **args)
    st = make(**args)
    want = ref(s, **phys)
    compare(ctx, st, want, s, model, name, uw, bool(name) or model == "two_param")
    if want[2] is not None and "damping_min" in args:
        ctx.see("given minimum dampings")
    if not name and model != "two_param" and "damping_min" not in args:
        ctx.true(bool(st.name), f"{model}: automatic name is empty")
    ctx.nontrivial(model, args)


FREE = {
    "clean_sand_and_gravel": ["void_ratio", "coef_unif", "diam_50", "fines_cont", "water_cont"],
    "nonplastic_silty_sand": ["void_ratio", "fines_cont", "water_cont"],
    "clayey_soil": ["void_ratio", "plas_index", "fines_cont", "ocr", "water_cont"],
}


def wang_params(rng, group):
    r = {
        "stress_mean": wide(rng, 20, 1200, 1, 10000),
        "void_ratio": rng.uniform(0.35, 1.4),
        "coef_unif": rng.uniform(1.1, 30),
        "diam_50": rng.uniform(0.1, 3),
        "fines_cont": rng.uniform(0.5, 12) if group == "clean_sand_and_gravel" else rng.uniform(13, 60),
        "water_cont": rng.uniform(1, 25) if group != "clayey_soil" else rng.uniform(22, 60),
        "ocr": wide(rng, 1, 10, 0.5, 40),
        "plas_index": rng.uniform(2, 60) if rng.random() < 0.7 else rng.uniform(60, 110),
    }
    if rng.random() < 0.2:
        # Nothing of something is a value as well
        r[str(rng.choice(["fines_cont", "water_cont", "plas_index"]))] = 0.0
    have = ["stress_mean"] + [k for k in FREE[group] if rng.random() < 0.75]
    if rng.random() < 0.3:
        have = ["stress_mean"] + FREE[group]
    rng.shuffle(have)
    return {k: float(r[k]) for k in have}


def wang(ctx, rng, i):
    site = gen.ps().site
    W = site.WangSoilType
    group = list(FREE)[i % 3]
    kw = wang_params(rng, group)
    ctx.case(group=group, **kw)
    try:
        arg, s = strains_of(rng)
        dmin = float(rng.uniform(0.002, 0.04)) if rng.random() < 0.4 else None
        mr, l1 = soilref.wang_mr(s, group, **kw)
        dm, l2 = soilref.wang_dmin(group, **kw)
        da, l3 = soilref.wang_damping(s, group, dmin, **kw)
        gm, l0 = soilref.wang_gmax(group, **kw)
    except (ValueError, OverflowError, ZeroDivisionError):
        return
    if not all(np.all(np.isreal(x)) and np.all(np.isfinite(x)) for x in (mr, dm, da, gm)):
        ctx.see("outside of the model")
        return
    label = f"wang {group}"
    for model, lv in (("gmax_model", l0), ("ggmax_model", l1), ("dmin_model", l2), ("damping_model", l3)):
        ctx.equal(W.get_level(model, group, **kw), lv, f"{label}: level of {model}")
        ctx.see(f"{group} {model} level {lv}")
    ctx.close(W.calc_shear_mod(group, **kw), gm, f"{label}: shear modulus level {l0}", 1e-10)
    ctx.close(W.calc_mod_reduc(s, group, **kw), mr, f"{label}: modulus reduction level {l1}", 1e-10)
    ctx.close(W.calc_mod_reduc(list(s), group, **kw), mr, f"{label}: modulus reduction of a list", 1e-10)
    ctx.close(W.calc_damping_min(group, **kw), dm / 100, f"{label}: minimum damping level {l2}", 1e-10)
    ctx.close(W.calc_damping(s, group, damping_min=dmin, **kw), da, f"{label}: damping level {l3}", 1e-10)
    ctx.close(W.calc_damping(s, group, **kw), soilref.wang_damping(s, group, None, **kw)[0], f"{label}: damping with its own minimum level {l3}", 1e-10)
    name = str(rng.choice(NAMES))
    opt = {}
    if arg is not None:
        opt["strains"] = arg
    if dmin is not None:
        opt["damping_min"] = dmin
    uw = float(rng.uniform(12, 24))
    st = W(group, name, unit_wt=uw, **opt, **kw)
    if np.all(mr > 0) and np.all(da > 0) and np.all(np.diff(mr) <= 0):
        compare(ctx, st, (mr, da), s, label, name, uw, bool(name))
    ctx.equal(st.soil_group, group, f"{label}: group")
    for k, v in st.index_params.items():
        ctx.equal(v, kw[k], f"{label}: index property")
    if i % 10 == 0:
        ctx.raises(lambda: W(group, unit_wt=uw, **{k: v for k, v in kw.items() if k != "stress_mean"}), f"{label}: no stress")
        ctx.raises(lambda: W("rock", unit_wt=uw, **kw), f"{label}: unknown group")
        ctx.see("refusals", 2)
    ctx.nontrivial(group, kw, opt)


def kishida(ctx, rng, i):
    site = gen.ps().site
    args = {}
    maybe(rng, args, "stress_vert", wide(rng, 11, 600, 8, 800, False))
    maybe(rng, args, "organic_content", float(rng.uniform(14, 78)))
    if rng.random() < 0.3:
        args["lab_consol_ratio"] = float(rng.uniform(1, 3))
    phys = dict(args)
    own = rng.random() < 0.5
    if own:
        args["unit_wt"] = float(rng.uniform(10, 18))
    name = str(rng.choice(NAMES))
    if name:
        args["name"] = name
    if rng.random() < 0.4:
        s = np.logspace(-6, rng.uniform(-3, -1), int(rng.integers(2, 40)))
        args["strains"] = s
    else:
        s = np.logspace(-6, -1.5, 20)
    ctx.case(model="kishida", **args)
    st = site.KishidaSoilType(**args)
    mr, d, uw = soilref.kishida(s, **phys)
    compare(ctx, st, (mr, d), s, "kishida", name, args.get("unit_wt"), True)
    if not own:
        ctx.close(st.unit_wt, uw, "kishida: unit weight of the model", 1e-10)
        ctx.close(st.density, uw / gen.G, "kishida: density", 1e-10)
        ctx.see("modelled unit weights")
        if i % 7 == 0:
            ctx.equal(site.KishidaSoilType(unit_wt=0.0, **args).unit_wt, 0.0, "kishida: unit weight given as zero")
    ctx.nontrivial(args)


def trends(ctx, rng, i):
    """Frequency arrays, and the trends the publications state."""
    site = gen.ps().site
    s = np.logspace(-6, -1.5, 20)
    p = float(rng.uniform(20, 400))
    pi = float(rng.uniform(0, 60))
    ctx.case(stress=p, plas_index=pi)
    lo, hi = (site.DarendeliSoilType(stress_mean=x, plas_index=pi) for x in (p, 2 * p))
    ctx.true(np.all(hi.mod_reduc.values >= lo.mod_reduc.values), "darendeli: stress stiffens")
    ctx.true(np.all(hi.damping.values <= lo.damping.values + 1e-12), "darendeli: stress lowers the damping")
    lo, hi = (site.DarendeliSoilType(stress_mean=p, plas_index=x) for x in (pi, pi + 20))
    ctx.true(np.all(hi.mod_reduc.values >= lo.mod_reduc.values), "darendeli: plasticity stiffens")
    lo, hi = (site.MenqSoilType(stress_mean=p, coef_unif=x) for x in (4.0, 20.0))
    k = s > 1e-4
    ctx.true(np.all(hi.mod_reduc.values[k] <= lo.mod_reduc.values[k]), "menq: well graded gravels soften earlier")
    lo, hi = (site.RollinsEtAlSoilType(stress_mean=x) for x in (p, 2 * p))
    ctx.true(np.all(hi.mod_reduc.values >= lo.mod_reduc.values), "rollins: stress stiffens")
    fr = np.sort(10 ** rng.uniform(-0.4, 1.2, 3))
    st = site.DarendeliSoilType(plas_index=pi, stress_mean=p, freq=fr)
    for j, f in enumerate(fr):
        one = soilref.darendeli(s, plas_index=pi, stress_mean=p, freq=float(f))
        ctx.close(st.damping.values[:, j], one[1], "darendeli: damping per frequency", 1e-7, 1e-10)
    ctx.see("trends", 6)
    ctx.nontrivial(p, pi)


NEED = {f"{g} {m} level {k}": 1 for g, n in (("clean_sand_and_gravel", 4), ("clayey_soil", 4)) for m in ("gmax_model", "ggmax_model") for k in range(0, n)}
MONITORS = [
    Monitor("hyperbolic", hyperbolic, 500, 15000, {"given minimum dampings": 30}),
    Monitor("wang", wang, 540, 16000, {"soils compared": 600, **NEED}),
    Monitor("kishida", kishida, 150, 5000, {"modelled unit weights": 40}),
    Monitor("trends", trends, 60, 1000, {"trends": 300}),
]
