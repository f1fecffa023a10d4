"""Random layered profiles (1-13 layers, shared and equal soils, velocity
inversions, zero to high damping, layers from millimetres to kilometres thick) run through the linear
calculator at random frequencies including zero; non-trivial when the profile has
at least one interface between different materials. Every transfer function
(acceleration between any two wave fields, strain, damped and undamped stress) is
compared, frequency by frequency, with an independent displacement/stress
propagator solution. The same is done with layer properties set by an imposed
strain (scalar and per frequency)."""
import contextlib

import numpy as np

from .. import gen, ref
from ..core import Monitor
from ..wavework import check_tfs, layer_props, limit_freq, spec_props, warm  # noqa: F401

ASSUMPTIONS = [
    "total one-way attenuation exponent at the highest frequency limited to 60",
    "the small-strain analyses use each of the complex modulus models, those at an imposed strain the default one",
    "strain and stress transfer functions are zero at zero frequency by convention",
]


@contextlib.contextmanager
def modulus_model(name):
    site = gen.ps().site
    old = site.COMP_MODULUS_MODEL
    site.COMP_MODULUS_MODEL = name
    try:
        yield
    finally:
        site.COMP_MODULUS_MODEL = old


def linear(ctx, rng, i):
    model = "dormieux" if i % 5 else str(rng.choice(["seed", "kramer"]))
    with modulus_model(model):
        analysed(ctx, rng, i, model)
    ctx.see("other models of the complex modulus", model != "dormieux")


def analysed(ctx, rng, i, model):
    ps = gen.ps()
    n = 0 if i % 29 == 0 else None
    spec = gen.profile_spec(rng, n=n) if n is None else gen.profile_spec(rng, n=1)
    if n == 0:
        # Nothing but a half-space
        spec["layers"] = spec["layers"][-1:]
        spec["soils"] = spec["soils"]
    elif i % 7 == 5:
        spec = gen.scaled(rng, spec)
        ctx.see("thin sheets or crustal layers")
    soils = [gen.build_soil(s) for s in spec["soils"]]
    prof = gen.build_profile(spec, soils)
    props = spec_props(spec, soils)
    if i % 3 == 0:
        mspec = gen.ts_spec(rng, n=int(rng.choice([64, 100, 129])))
        scale = limit_freq(np.array([0.5 / mspec["dt"]]), props)[0] / (0.5 / mspec["dt"])
        mspec["dt"] /= scale
    else:
        mspec = gen.freqs_spec(rng, low=i % 2 == 0)
        mspec["freqs"] = limit_freq(mspec["freqs"], props)
    mot = gen.build_motion(mspec)
    calc = ps.propagation.LinearElasticCalculator()
    base = gen.location_spec(rng, spec)
    calc(mot, prof, gen.build_location(prof, base))
    n_all = len(spec["layers"])
    f = mspec["freqs"] if mspec["kind"] == "freqs" else np.asarray(mot.freqs)
    if mspec["kind"] == "ts":
        nfft = 1 << int(np.ceil(np.log2(mspec["accels"].size)))
        if mspec["fa_length"]:
            nfft = mspec["fa_length"]
        f = np.arange(nfft // 2 + 1) / (nfft * mspec["dt"])
    ctx.case(profile=spec, motion=mspec, base=base, model=model)
    sh = ref.SH(f, *props, model=model)
    for _ in range(5):
        a, b = gen.location_spec(rng, spec), gen.location_spec(rng, spec)
        if rng.random() < 0.6:
            b["field"] = "within"
        check_tfs(
            ctx, calc, sh, {"lin": a, "lout": b},
            gen.build_location(prof, a), gen.build_location(prof, b),
            gen.resolve(spec, a), gen.resolve(spec, b),
        )
    vs = props[1]
    if n_all > 1 and len(set(vs)) > 1:
        ctx.nontrivial(spec, mspec["kind"], f.size)


def imposed(ctx, rng, i):
    """Linear propagation through layers carrying strain-dependent properties."""
    ps = gen.ps()
    spec = gen.profile_spec(rng, nonlinear=True, n=int(rng.integers(1, 8)))
    prof = gen.build_profile(spec)
    mspec = gen.freqs_spec(rng, n=int(rng.integers(5, 50)), fmax=20)
    nf = mspec["freqs"].size
    for la in prof:
        s = 10.0 ** rng.uniform(-6, -2)
        if i % 2 and la.soil_type.is_nonlinear:
            s = s * np.exp(-np.linspace(0, rng.uniform(0, 5), nf))
        la.strain = s
    thick, vs, rho, damp = layer_props(prof)
    mspec["freqs"] = limit_freq(mspec["freqs"], (thick, vs, rho, damp))
    mot = gen.build_motion(mspec)
    calc = ps.propagation.LinearElasticCalculator()
    base = gen.base_loc()
    calc(mot, prof, gen.build_location(prof, base), reset_layers=False)
    t2, v2, r2, d2 = layer_props(prof)
    for x, y in zip(vs + damp, v2 + d2):
        ctx.same(y, x, "properties kept when layers are not reset")
    ctx.case(profile=spec, motion=mspec, per_frequency=bool(i % 2))
    sh = ref.SH(mspec["freqs"], thick, vs, rho, damp)
    for _ in range(4):
        a, b = gen.location_spec(rng, spec), gen.location_spec(rng, spec, "within")
        check_tfs(
            ctx, calc, sh, {"lin": a, "lout": b},
            gen.build_location(prof, a), gen.build_location(prof, b),
            gen.resolve(spec, a), gen.resolve(spec, b), tag="imposed strain: ",
        )
    ctx.nontrivial(spec, i % 2)


MONITORS = [
    Monitor("linear", linear, 420, 12000, {"transfer functions": 2000, "strain and stress transfer functions": 2000, "thin sheets or crustal layers": 40, "other models of the complex modulus": 60}),
    Monitor("imposed", imposed, 150, 4000),
]
