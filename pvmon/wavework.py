"""Shared workload for the wave-propagation properties."""
import numpy as np

from . import gen, ref


def warm():
    """Compile the accelerated kernels once, before forking."""
    rng = np.random.default_rng(0)
    ps = gen.ps()
    prof = gen.build_profile(gen.profile_spec(rng, n=2, nonlinear=False))
    mot = gen.build_motion(gen.ts_spec(rng, n=64))
    calc = ps.propagation.LinearElasticCalculator()
    calc(mot, prof, prof.location("outcrop", index=-1))
    a, b = prof.location("outcrop", index=-1), prof.location("within", depth=0.5)
    calc.calc_accel_tf(a, b)
    calc.calc_strain_tf(a, b)
    for lin in ("within", "incoming_only"):
        calc.calc_strain_tf(prof.location(lin, index=-1), b)
    q = ps.propagation.QuarterWaveLenCalculator()
    q(gen.build_motion({"kind": "freqs", "freqs": np.array([1.0, 2.0])}), prof, a)


def layer_props(profile):
    """Current thickness, velocity, density, damping as reported by the layers."""
    thick = [float(la.thickness) for la in profile]
    vs = [np.sqrt(np.asarray(la.shear_mod) / la.density) for la in profile]
    rho = [float(la.density) for la in profile]
    damp = [np.asarray(la.damping) for la in profile]
    return thick, vs, rho, damp


def spec_props(spec, soils):
    """Small-strain properties from the specification."""
    thick, vs, rho, damp = [], [], [], []
    for la in spec["layers"]:
        s = spec["soils"][la["soil"]]
        thick.append(la["thickness"])
        vs.append(la["vs"])
        rho.append(s["unit_wt"] / gen.G)
        d = la["dmin"]
        if d is None:
            if s["kind"] == "linear":
                d = s["damping"]
            else:
                st = soils[la["soil"]].damping
                d = float(getattr(st, "values", [st])[0])
        damp.append(d)
    return thick, vs, rho, damp


def limit_freq(freqs, props, limit=60.0):
    """Scale frequencies down so that total attenuation stays representable."""
    thick, vs, rho, damp = props
    atten = sum(
        2 * np.pi * freqs.max() * t / np.min(v) * min(float(np.max(d)) + 1e-6, 0.6)
        for t, v, d in zip(thick[:-1], vs[:-1], damp[:-1])
    )
    if atten > limit:
        freqs = freqs * (limit / atten)
    return freqs


def check_tfs(ctx, calc, sh, locs, lin, lout, where_in, where_out, tag="", stress=True):
    """Compare all transfer functions between two locations with the reference.

    where_* are (layer, depth within) from the definition of the location. The
    stress uses a layer's current modulus, which after a nonlinear analysis is one
    iteration ahead of the waves: leave it out there.
    """
    den, sden = sh.field(where_in, lin.wave_field.name), 2 * sh.scale(where_in)
    num, snum = sh.field(where_out, lout.wave_field.name), 2 * sh.scale(where_out)
    tf = calc.calc_accel_tf(lin, lout)
    ref.check_ratio(ctx, tf, num, den, snum, sden, f"{tag}acceleration transfer function", **locs)
    ctx.see("transfer functions")
    ctx.see("frequencies", tf.size)
    dc = sh.w == 0
    if lout.wave_field.name != "within":
        return
    ac = ~dc
    gam = gen.G * sh.strain(where_out)
    sgam = gen.G * sh.strain_scale(where_out)
    w2 = -(sh.w**2)
    stf = calc.calc_strain_tf(lin, lout)
    ctx.true(stf.shape == tf.shape, f"{tag}strain tf shape")
    ref.check_ratio(
        ctx, stf[ac], gam[ac], (w2 * den)[ac], sgam[ac], (sh.w**2 * sden)[ac],
        f"{tag}strain transfer function", **locs,
    )
    ctx.true(np.all(stf[dc] == 0), f"{tag}strain at zero frequency", **locs)
    for damped in (False, True) if stress else ():
        mod = (sh.gmod if damped else sh.greal)[where_out[0]]
        t = calc.calc_stress_tf(lin, lout, damped)
        ref.check_ratio(
            ctx, t[ac], (gam * mod)[ac], (w2 * den)[ac], np.abs(sgam * mod)[ac],
            (sh.w**2 * sden)[ac], f"{tag}stress transfer function damped={damped}", **locs,
        )
        ctx.true(np.all(t[dc] == 0), f"{tag}stress at zero frequency", **locs)
    ctx.see("strain and stress transfer functions", 3 if stress else 1)
