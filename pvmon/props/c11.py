"""Random profiles fitted to targets made from perturbed versions of them (crustal
amplification or site term, with thickness, site attenuation and source velocity
adjusted or not). The fitted model's misfit, bounds, fixed quantities and consistency
are judged, and the caller's profile is compared with a snapshot. Non-trivial: a fit
that changed a velocity by more than 0.1 %."""
import copy

import numpy as np

from .. import gen
from ..core import Monitor
from ..wavework import warm  # noqa: F401
from .c10 import judge


def fit(ctx, rng, i):
    p = gen.ps().propagation
    n = int(rng.integers(1, 5))
    spec = gen.profile_spec(rng, n=n, nonlinear=None if i % 3 else False, max_thick=60, vs=(150, 1200))
    vs = sorted(la["vs"] for la in spec["layers"])
    for la, v in zip(spec["layers"], vs):
        la["vs"] = v
    if i % 4 == 0:
        spec["layers"][-1]["vs"] = 3500.0
    elif i % 4 == 1:
        # The half-space is not the fastest
        spec["layers"][-1]["vs"] = float(vs[-2] * rng.uniform(0.7, 0.97))
    freqs = np.geomspace(0.2, 20, int(rng.integers(4, 10)))
    kind = "crustal_amp" if i % 2 else "site_term"
    method = "ba23" if i % 5 == 0 else "standard"
    opt = dict(
        adjust_thickness=bool(rng.random() < 0.4),
        adjust_source_vel=bool(rng.random() < 0.3),
        adjust_site_atten=kind == "site_term" and bool(rng.random() < 0.6),
    )
    kappa = float(rng.uniform(0.005, 0.06)) if kind == "site_term" or rng.random() < 0.3 else None
    if kappa is not None and kind == "crustal_amp":
        opt["adjust_site_atten"] = bool(rng.random() < 0.5)
    mot = gen.build_motion({"kind": "freqs", "freqs": freqs})
    # Target: the response of a perturbed profile
    other = copy.deepcopy(spec)
    for la in other["layers"][:-1]:
        la["vs"] *= float(np.exp(rng.normal(0, 0.15)))
    tc = p.QuarterWaveLenCalculator(None if kappa is None else kappa * float(rng.uniform(0.7, 1.4)), method)
    tp = gen.build_profile(other)
    tc(mot, tp, tp.location("outcrop", index=-1))
    target = np.array(tc.crustal_amp if kind == "crustal_amp" else tc.site_term)
    ctx.case(profile=spec, freqs=freqs, target_type=kind, target=target, options=opt, kappa=kappa, method=method)
    calc = p.QuarterWaveLenCalculator(kappa, method)
    prof = gen.build_profile(spec)
    calc(mot, prof, prof.location("outcrop", index=-1))
    before = np.array(calc.crustal_amp if kind == "crustal_amp" else calc.site_term)
    keep_target = target.copy()
    try:
        # Options that are not asked for may be left out
        out = calc.fit(kind, target, **{k: v for k, v in opt.items() if v or i % 3})
    except RuntimeError as e:
        # A trial velocity inversion may make the depth iteration diverge
        ctx.true("converge" in str(e), "refused", str(e))
        ctx.see("fit refused")
        # Nothing the calculator reports may have changed
        ctx.equal(calc.site_atten, kappa, "site attenuation reported after a refused fit")
        ctx.true(calc.profile is prof, "profile reported after a refused fit")
        now = np.asarray(calc.crustal_amp if kind == "crustal_amp" else calc.site_term)
        ctx.same(now, before, "response reported after a refused fit")
        return
    ctx.same(target, keep_target, "the target is modified")
    # The caller's profile
    for la, s in zip(prof, spec["layers"]):
        ctx.true(la.initial_shear_vel == s["vs"] and la.thickness == s["thickness"], "the caller's profile is modified")
        if s["dmin"] is not None:
            ctx.equal(la.damping_min, s["dmin"], "the caller's profile is modified")
    ctx.equal(len(prof), len(spec["layers"]), "the caller's profile is modified")
    # The returned model
    ctx.true(out is not None and len(out) == len(prof), "the fitted profile is returned")
    ctx.true(out is not prof, "the fitted profile is a new one")
    tol = 1e-9
    for k, (a, b) in enumerate(zip(out, prof)):
        ctx.true(a is not b, "layers are shared with the caller's profile")
        ctx.equal(a.soil_type, b.soil_type, "soil type of the fitted profile")
        ctx.equal(a.damping_min, b.damping_min, "minimum damping of the fitted profile")
        v = a.initial_shear_vel
        if k == len(prof) - 1 and not opt["adjust_source_vel"]:
            ctx.close(v, b.initial_shear_vel, "source velocity is fixed", 1e-9)
        else:
            ctx.true(100 * (1 - tol) <= v <= 4000 * (1 + tol), "velocity bounds", f"{v}")
        t, t0 = a.thickness, b.thickness
        if opt["adjust_thickness"]:
            ctx.true(t0 / 2 * (1 - tol) <= t <= 2 * t0 * (1 + tol), "thickness bounds", f"{t} from {t0}")
        else:
            ctx.equal(t, t0, "thickness is kept")
    ctx.equal(out.wt_depth, prof.wt_depth, "water table of the fitted profile")
    if opt["adjust_site_atten"]:
        ctx.true(1e-4 * (1 - tol) <= calc.site_atten <= 0.2 * (1 + tol), "site attenuation bounds", f"{calc.site_atten}")
    else:
        ctx.equal(calc.site_atten, kappa, "site attenuation is kept")
    # Consistency of what the calculator reports
    ctx.true(calc.profile is out, "the calculator reports the fitted profile")
    fresh = p.QuarterWaveLenCalculator(calc.site_atten, method)
    fresh(mot, out, out.location("outcrop", index=-1))
    ctx.close(np.asarray(calc.crustal_amp), np.asarray(fresh.crustal_amp), "reported amplification is that of the profile", 1e-12)
    ctx.close(np.asarray(calc.site_term), np.asarray(fresh.site_term), "reported site term is that of the profile", 1e-12)
    fitted = {
        "layers": [{"soil": la["soil"], "thickness": float(x.thickness), "vs": float(x.initial_shear_vel), "dmin": 0.0}
                   for la, x in zip(spec["layers"], out)],
        "soils": spec["soils"],
    }
    judge(ctx, calc, fitted, freqs, method, calc.site_atten, "fitted: ")
    after = np.array(calc.crustal_amp if kind == "crustal_amp" else calc.site_term)

    def misfit(c):
        return float(np.mean(((target - c) / c) ** 2))

    m0, m1 = misfit(before), misfit(after)
    ctx.true(m1 <= m0 * (1 + 1e-9) + 1e-15, "the fit is worse than the start", f"misfit {m1:.6g} from {m0:.6g}")
    # The objective includes the preference for the original values, which is zero at the start
    def away(x0, x):
        x0, x = np.asarray(x0, float), np.asarray(x, float)
        return float(np.mean(((x0 - x) / x) ** 2))

    full = 10 * m1 + away(1 / prof.initial_shear_vel, 1 / out.initial_shear_vel)
    if opt["adjust_thickness"]:
        full += away(prof.thickness[:-1], out.thickness[:-1])
    if opt["adjust_site_atten"]:
        full += away(calc.site_atten, kappa)
    ctx.true(full <= 10 * m0 * (1 + 1e-9) + 1e-14, "the fit is worse than the start by its objective", f"{full:.6g} from {10 * m0:.6g}")
    ctx.see("fits judged")
    moved = max(abs(a.initial_shear_vel / b.initial_shear_vel - 1) for a, b in zip(out, prof))
    if moved > 1e-3 and opt["adjust_thickness"]:
        ctx.true(np.any(out.thickness != prof.thickness), "thicknesses are not adjusted")
        ctx.see("fits of thicknesses")
    if moved > 1e-3 and opt["adjust_site_atten"] and kind == "site_term":
        ctx.true(calc.site_atten != kappa, "site attenuation is not adjusted")
    if moved > 1e-3 and opt["adjust_source_vel"]:
        ctx.true(out[-1].initial_shear_vel != prof[-1].initial_shear_vel, "source velocity is not adjusted")
    if m1 < 0.5 * m0:
        ctx.see("misfit at least halved")
    if moved > 1e-3:
        ctx.see("fits that moved")
        ctx.nontrivial(spec, kind, opt)


MONITORS = [Monitor("fit", fit, 120, 3000, {"fits judged": 60, "fits that moved": 50, "misfit at least halved": 40})]
