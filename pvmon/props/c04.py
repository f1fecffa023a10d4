"""For each complex modulus model: layers carrying random dampings (from zero to far
beyond the admissible range on both sides, scalar and per frequency) and random profiles. Judged
against the published formulas, and by an energy budget computed from the reported
transfer functions: flux through any depth is non-negative, grows with depth and
equals the energy dissipated above (Gauss quadrature of the strain); without damping
the up- and down-going amplitudes are equal. Non-trivial: positive damping or at
least one interface."""
import contextlib

import numpy as np

from .. import gen, ref
from ..core import Monitor
from ..wavework import limit_freq, spec_props, warm  # noqa: F401

MODELS = ("seed", "kramer", "dormieux")


@contextlib.contextmanager
def model(name):
    site = gen.ps().site
    old = site.COMP_MODULUS_MODEL
    site.COMP_MODULUS_MODEL = name
    try:
        yield
    finally:
        site.COMP_MODULUS_MODEL = old


def formula(ctx, rng, i):
    site = gen.ps().site
    m = MODELS[i % 3]
    d = float(rng.choice([0, 1e-9, rng.uniform(0, 0.1), rng.uniform(0.1, 0.5), 0.49, 0.495, 0.5, rng.uniform(0.5, 3), -1e-6, -rng.uniform(0, 0.2), -rng.uniform(0.2, 2)]))
    rho = rng.uniform(12, 26)
    vs = float(rng.uniform(50, 3500))
    ctx.case(model=m, damping=d, vs=vs, unit_wt=rho)
    layer = site.Layer(site.SoilType("x", rho, None, d), 5.0, vs)
    if i % 2:
        layer = site.Layer(site.SoilType("x", rho, None, 0.01), 5.0, vs, d)
    with model(m):
        g = layer.comp_shear_mod
        v = layer.comp_shear_vel
    want = rho / gen.G * vs**2 * ref.comp_factor(d, m)
    ctx.close(g, want, f"{m}: complex modulus", 1e-12)
    ctx.close(v * v * rho / gen.G, want, f"{m}: complex velocity", 1e-12)
    ctx.true(np.isfinite(v) and np.real(v) > 0 and np.imag(v) >= 0 and np.imag(g) >= 0, f"{m}: admissible")
    ctx.see("formula evaluations")
    ctx.see("negative dampings", d < 0)
    # Per-frequency damping through a strain dependent layer, reaching large damping
    s, dv = gen.curve_points(rng, "damping")
    st = site.SoilType("y", rho, gen.build_curve("mod_reduc", gen.curve_points(rng, "mod_reduc")),
                       gen.build_curve("damping", (s, np.clip(dv * rng.uniform(0.5, 3), 0, 0.6)), limits=(0, 0.6)))
    la = site.Layer(st, 5.0, vs, float(rng.uniform(-0.15, 0.2)))
    la.strain = 10.0 ** rng.uniform(-6, -0.5, 25) if i % 4 else 10.0 ** rng.uniform(-6, -0.5)
    with model(m):
        g, v = la.comp_shear_mod, la.comp_shear_vel
    ctx.close(g, np.asarray(la.shear_mod) * ref.comp_factor(la.damping, m), f"{m}: complex modulus at a strain", 1e-12)
    ctx.close(v * v * la.density, g, f"{m}: complex velocity at a strain", 1e-12)
    ctx.true(np.all(np.isfinite(v)) and np.all(np.real(v) > 0) and np.all(np.imag(v) >= 0), f"{m}: admissible")
    ctx.see("formula evaluations", np.size(v))
    ctx.nontrivial(m, d, vs)


def unknown(ctx, rng, i):
    """The documented models are the only ones."""
    site = gen.ps().site
    la = site.Layer(site.SoilType("x", 20.0, None, 0.05), 5.0, 200.0)
    name = ["", "none", "Seed", "kelvin"][i % 4]
    ctx.case(model=name)
    with model(name):
        ctx.raises(lambda: la.comp_shear_mod, "unknown model refused")


NODES, WTS = np.polynomial.legendre.leggauss(12)


def budget(ctx, rng, i):
    ps = gen.ps()
    site = ps.site
    m = MODELS[i % 3]
    spec = gen.profile_spec(rng, n=int(rng.integers(1, 7)), nonlinear=False, max_thick=15)
    lossless = i % 5 == 0
    for s in spec["soils"]:
        s["damping"] = 0.0 if lossless else float(s["damping"]) + 0.001
    for la in spec["layers"]:
        if lossless:
            la["dmin"] = None
    props = spec_props(spec, None)
    mspec = gen.freqs_spec(rng, n=12, fmax=15, zero=False)
    mspec["freqs"] = np.maximum(limit_freq(mspec["freqs"], props, 15.0), 0.05)
    prof = gen.build_profile(spec)
    ctx.case(model=m, profile=spec, motion=mspec, lossless=lossless)
    calc = ps.propagation.LinearElasticCalculator()
    with model(m):
        calc(gen.build_motion(mspec), prof, prof.location("outcrop", index=-1))
        w = 2 * np.pi * mspec["freqs"]
        surf = prof.location("within", index=0)

        def at(k, z, field="within"):
            return site.Location(k, prof[k], field, z)

        def flux(k, z):
            a = calc.calc_accel_tf(surf, at(k, z))
            s = calc.calc_stress_tf(surf, at(k, z), damped=True)
            up = calc.calc_accel_tf(surf, at(k, z, "incoming_only"))
            unit = w**2 * prof[k].density * np.abs(prof[k].comp_shear_vel) * (np.abs(up) + np.abs(a - up)) ** 2
            return w**3 / gen.G * np.real(1j * s * np.conj(a)), unit

        lost = np.zeros(w.size)
        gross = np.zeros(w.size)
        for k in range(len(prof)):
            thick = prof[k].thickness if k < len(prof) - 1 else 10.0
            for z in (0.0, thick * rng.uniform(0.1, 0.9)):
                up = calc.calc_accel_tf(surf, at(k, z, "incoming_only"))
                dn = calc.calc_accel_tf(surf, at(k, z)) - up
                sc = np.abs(up) + np.abs(dn)
                if lossless:
                    ctx.close(np.abs(dn), np.abs(up), f"{m}: lossless flux balance", 0, 1e-8 * sc)
                p, unit = flux(k, z)
                ctx.true(np.all(p >= -1e-8 * unit), f"{m}: net flux into the ground above is negative")
            # Energy balance of this layer
            p0, u0 = flux(k, 0.0)
            p1, u1 = flux(k, thick)
            # enough quadrature panels to resolve the waves
            nw = np.max(w) * thick / (2 * np.pi * prof[k].initial_shear_vel)
            panels = int(np.ceil(2 * nw)) + 1
            diss = np.zeros(w.size)
            for q in range(panels):
                for x, wt in zip(NODES, WTS):
                    z = (q + (x + 1) / 2) * thick / panels
                    gam = calc.calc_strain_tf(surf, at(k, z)) * (-(w**2)) / gen.G
                    diss += wt / 2 * thick / panels * np.abs(gam) ** 2
            diss = diss * w * np.imag(prof[k].comp_shear_mod)
            ctx.close(p1 - p0, diss, f"{m}: flux gained through a layer is the energy it dissipates", 1e-5, 1e-8 * (u0 + u1))
            ctx.see("layer energy balances")
            lost, gross = lost + diss, gross + u0 + u1
    ctx.nontrivial(m, spec)


MONITORS = [
    Monitor("formula", formula, 900, 20000, {"formula evaluations": 2000}),
    Monitor("unknown", unknown, 4, 4),
    Monitor("budget", budget, 90, 3000, {"layer energy balances": 200}),
]
