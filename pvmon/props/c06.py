"""Equivalent-linear and frequency-dependent analyses of random profiles, watched by
a motion that records every peak evaluation. An analysis whose result does not change
with a larger iteration cap stopped because it converged: an independent further
iteration (reference propagation and curves) may then change no modulus or damping by
more than a small multiple of the tolerance. Caps, strain limits far below, and above,
the strains that an independent simulation produces are judged against that
simulation. Non-trivial: an analysis that took more than one iteration."""
import numpy as np

from .. import gen, ref
from ..core import Monitor, alike
from ..eqlwork import (
    Overrun, eql_case, layer_props, motion_parts, recording, snapshot, step,
)
from ..wavework import warm  # noqa: F401

ASSUMPTIONS = ["'about the tolerance' is read as at most three times the tolerance (percent)"]
FACTOR = 3.0


def rec_motion(m, limit):
    mod = gen.ps().motion
    base = mod.TimeSeriesMotion if m["kind"] == "ts" else mod.RvtMotion
    return gen.build_motion(m, recording(base, limit))


def change(old, new):
    """Largest relative change of a modulus or damping [%]."""
    worst = 0.0
    for (g0, d0), (g, d) in zip(old, new):
        eg = np.max(np.abs(g - g0) / np.abs(g))
        with np.errstate(all="ignore"):
            ed = np.max(np.where(np.abs(d - d0) <= 1e-12, 0, np.abs(d - d0) / np.abs(d)))
        worst = max(worst, 100 * eg, 100 * ed)
    return worst


def converged(ctx, rng, i):
    p = gen.ps().propagation
    spec, m, loc = eql_case(rng, nonlinear=True if i % 3 else None, pga=10 ** rng.uniform(-3, -0.5))
    if i % 5 == 2:
        # Soft and in thin layers, all of them or the upper ones
        k = int(rng.integers(2, 14))
        la = spec["layers"][0]
        thin = [{**la, "thickness": round(float(rng.uniform(0.2, 0.95)), 2), "vs": float(rng.uniform(60, 130))} for _ in range(k)]
        spec["layers"] = thin + (spec["layers"][-1:] if rng.random() < 0.6 else spec["layers"][1:])
        ctx.see("profiles with thin layers")
        if loc["index"] is not None and loc["index"] >= 0:
            loc = gen.base_loc("outcrop")
    tol = float(rng.choice([1e-6, 1e-4, 0.001, 0.01, 0.1, 1.0, 5.0, 20.0]))
    ratio = float(rng.uniform(0.4, 1.0))
    fdm = i % 4 == 3
    n = len(spec["layers"])
    cap = int(rng.integers(3, 40))
    if fdm:
        if m["kind"] == "ts":
            m = gen.ts_spec(rng, n=256, pga=10 ** rng.uniform(-3, -1), kind="noise")
        method = str(rng.choice(["ka02", "zr15", "ko:20"]))

        def make(c):
            return p.FrequencyDependentEqlCalculator(method, ratio, tol, c, 0.0)
    else:
        method = "eql"

        def make(c):
            return p.EquivalentLinearCalculator(ratio, tol, c, 0.0)
    ctx.case(profile=spec, motion=m, input=loc, tol=tol, cap=cap, ratio=ratio, method=method)
    runs = []
    # No cycle of iterations has the same state at all three caps
    for c in (cap, cap + 60, cap + 61):
        prof = gen.build_profile(spec)
        mot = rec_motion(m, 4 * n * (c + 20) + 50)
        calc = make(c)
        lin = gen.build_location(prof, loc)
        try:
            calc(mot, prof, lin)
        except Overrun as e:
            ctx.fail("iteration cap exceeded", str(e), cap=c, layers=n)
        runs.append((prof, calc, mot, lin))
    a = snapshot(runs[0][0])
    same = all(alike(x, y) for r in runs[1:] for x, y in zip(a, snapshot(r[0])))
    calls = [len(r[2].peaks) for r in runs]
    if not same:
        ctx.see("stopped by the cap")
        return
    if calls[0] == calls[1]:
        ctx.see("stopped before the cap")
    prof, calc, mot, lin = runs[0]
    ctx.same([calc.tolerance, calc.strain_ratio, calc.max_iterations, calc.strain_limit], [tol, ratio, cap, 0.0], "settings of the calculator")
    freqs, fas, peak = motion_parts(m, mot)
    props = layer_props(prof)
    if not fdm:
        strains = step(props, freqs, peak, gen.resolve(spec, loc), loc["field"], ratio)
        new = []
        for k, la in enumerate(prof[:-1]):
            gmax = la.unit_wt / gen.G * la.initial_shear_vel**2
            new.append(ref.soil_state(la.soil_type, gmax, la.damping_min, strains[k]))
    else:
        # One more iteration of the calculator itself, from the reported properties
        go = make(1)
        go(mot, prof, lin, reset_layers=False)
        new = [(np.asarray(la.shear_mod), np.asarray(la.damping)) for la in prof[:-1]]
    old = [(np.asarray(props[1][k]) ** 2 * props[2][k], np.asarray(props[3][k])) for k in range(len(new))]
    worst = change(old, new)
    if worst > FACTOR * tol + 1e-7:
        # The response may be so sensitive that a change within the tolerance is followed by
        # a larger one: judge the change of the iteration that was the last
        states = {}

        def after(c):
            if c not in states:
                other = gen.build_profile(spec)
                make(c)(gen.build_motion(m), other, gen.build_location(other, loc))
                states[c] = other
            return states[c]

        c = next(c for c in range(cap + 1) if all(alike(x, y) for x, y in zip(a, snapshot(after(c)))))
        if c:
            pair = [[(np.asarray(la.shear_mod), np.asarray(la.damping)) for la in after(k)[:-1]] for k in (c - 1, c)]
            if change(*pair) <= tol * (1 + 1e-6) + 1e-7:
                ctx.see("sensitive analyses, last change within the tolerance")
                return
    ctx.true(
        worst <= FACTOR * tol + 1e-7, "accepted before convergence",
        f"another iteration changes a property by {worst:.4g} %, tolerance {tol} %", method=method, cap=cap,
    )
    if worst > 1e-9 and i % 2:
        # The last iteration made, found by bisection on the cap
        lo, hi, last = 0, cap, None
        seen = {}
        while hi - lo > 1:
            mid = (lo + hi) // 2
            seen[mid] = gen.build_profile(spec)
            make(mid)(gen.build_motion(m), seen[mid], gen.build_location(seen[mid], loc))
            if all(alike(x, y) for x, y in zip(a, snapshot(seen[mid]))):
                hi = mid
            else:
                lo = mid
        if lo:
            last = [[(np.asarray(la.shear_mod), np.asarray(la.damping)) for la in q[:-1]] for q in (seen[lo], prof if not fdm else runs[1][0])]
            ctx.true(
                change(*last) <= FACTOR * tol + 1e-7, "accepted before convergence",
                f"the last iteration changed a property by {change(*last):.4g} %, tolerance {tol} %", method=method, cap=cap,
            )
            ctx.see("last iterations judged")
    ctx.see("converged results judged")
    if calls[0] > 2 * n:
        ctx.nontrivial(spec, m, tol, method)


def caps(ctx, rng, i):
    """The number of strain evaluations is bounded by the cap."""
    p = gen.ps().propagation
    spec, m, loc = eql_case(rng, nonlinear=True, pga=10 ** rng.uniform(-2, -0.4), rvt=False)
    n = len(spec["layers"])
    cap = int(rng.integers(1, 30)) if i % 2 else int(rng.integers(1, 4))
    tol = float(rng.choice([0.0, -1.0, 1e-12]))
    fdm = i % 3 == 2
    mot = rec_motion(m, (cap + 60) * n * 4)
    prof = gen.build_profile(spec)
    ctx.case(profile=spec, motion=m, cap=cap, tolerance=tol, fdm=fdm)
    if fdm:
        calc = p.FrequencyDependentEqlCalculator("ko:20", 0.65, tol, cap, 0.0)
        extra = 15 + 3
    else:
        calc = p.EquivalentLinearCalculator(0.65, tol, cap, 0.0)
        extra = 3
    try:
        calc(mot, prof, gen.build_location(prof, loc))
    except Overrun as e:
        ctx.fail("iteration cap exceeded", str(e), cap=cap)
    used = len(mot.peaks)
    ctx.true(used <= (cap + extra) * n, "iteration cap exceeded", f"{used} strain evaluations for cap {cap} and {n} layers")
    ctx.see("capped analyses")
    # One more iteration changes the result, unless all further ones change nothing
    ends = []
    for c in (cap, cap + 1, cap + 2):
        other = gen.build_profile(spec)
        calc = p.FrequencyDependentEqlCalculator("ko:20", 0.65, tol, c, 0.0) if fdm else p.EquivalentLinearCalculator(0.65, tol, c, 0.0)
        calc(gen.build_motion(m), other, gen.build_location(other, loc))
        ends.append(snapshot(other))
    same = [all(alike(x, y) for x, y in zip(a, b)) for a, b in zip(ends, ends[1:])]
    ctx.true(same[1] or not same[0], "a cap that is not kept", f"same results for caps {cap} and {cap + 1}, other for {cap + 2}", fdm=fdm)
    if not same[0]:
        ctx.see("caps that matter")
    ctx.nontrivial(spec, m, cap)


def limits(ctx, rng, i):
    """Strain limits far from the strains decide between result and refusal."""
    p = gen.ps().propagation
    spec, m, loc = eql_case(rng, nonlinear=True if i % 2 else None, rvt=False, pga=10 ** rng.uniform(-2, -0.2))
    ratio = 0.65
    mot = gen.build_motion(m)
    freqs, fas, peak = motion_parts(m, mot)
    where = gen.resolve(spec, loc)
    cap = int(rng.integers(4, 15))
    prof = gen.build_profile(spec)
    free = p.EquivalentLinearCalculator(ratio, 0.01, cap, 0.0)
    free(gen.build_motion(m), prof, gen.build_location(prof, loc))
    # Largest strain of an independent, unlimited simulation
    top = 0.0
    sim = gen.build_profile(spec)
    for la in sim:
        la.strain = (mot.pgv / 100) / la.initial_shear_vel
    for _ in range(cap):
        s = step(layer_props(sim), freqs, peak, where, loc["field"], ratio)
        top = max(top, float(np.max(s)))
        for la, v in zip(sim[:-1], s):
            la.strain = float(v)
    ctx.case(profile=spec, motion=m, input=loc, top=top)
    if not top < 1:
        # The outcrop of an inner layer without motion to speak of: rounding decides
        ctx.see("strains without meaning")
        return
    high = top * float(rng.uniform(1.5, 20))
    again = gen.build_profile(spec)
    calc = p.EquivalentLinearCalculator(ratio, 0.01, cap, high)
    try:
        calc(gen.build_motion(m), again, gen.build_location(again, loc))
    except RuntimeError as e:
        ctx.fail("refused below the strain limit", str(e), limit=high, top=top)
    for x, y in zip(snapshot(prof), snapshot(again)):
        ctx.close(y, x, "a strain limit that is never reached changes the result", 1e-9)
    ctx.see("never limited")
    # A limit that an independent simulation exceeds in every iteration
    low = top * float(rng.uniform(0.001, 0.3))
    sim = gen.build_profile(spec)
    for la in sim:
        la.strain = (mot.pgv / 100) / la.initial_shear_vel
    over = []
    for _ in range(cap):
        s = step(layer_props(sim), freqs, peak, where, loc["field"], ratio)
        over.append(float(np.max(s) / low))
        for la, v in zip(sim[:-1], np.minimum(s, low)):
            la.strain = float(v)
    lim = gen.build_profile(spec)
    calc = p.EquivalentLinearCalculator(ratio, 0.01, cap, low)

    def go():
        calc(gen.build_motion(m), lim, gen.build_location(lim, loc))
        return [float(la.strain) for la in lim]

    if min(over) > 1.05:
        ctx.raises(go, "result returned although strains stay over the limit", RuntimeError, low=low, over=over)
        ctx.see("persistently limited")
        if i % 3 == 0:
            fd = p.FrequencyDependentEqlCalculator(str(rng.choice(["ka02", "zr15"])), ratio, 0.01, cap, low)
            pr = gen.build_profile(spec)
            ctx.raises(
                lambda: fd(gen.build_motion(m), pr, gen.build_location(pr, loc)),
                "frequency dependent: result returned although strains stay over the limit", RuntimeError,
            )
    # Whatever is returned does not exceed the limit, at any frequency
    if i % 2:
        kind = str(rng.choice(["ka02", "zr15", "ko:20"]))
        fd = p.FrequencyDependentEqlCalculator(kind, ratio, 0.01, 4, 0.0)
        pr = gen.build_profile(spec)
        fd(gen.build_motion(m), pr, gen.build_location(pr, loc))
        most = max(float(np.max(la.strain)) for la in pr[:-1])
        limit = most * float(rng.uniform(0.2, 1.2))
        fd = p.FrequencyDependentEqlCalculator(kind, ratio, 0.01, cap, limit)
        pr = gen.build_profile(spec)
        try:
            fd(gen.build_motion(m), pr, gen.build_location(pr, loc))
        except RuntimeError:
            ctx.see("spectra refused")
        else:
            found = max(float(np.max(la.strain)) for la in pr[:-1])
            ctx.true(found <= limit * (1 + 1e-9), "result returned with strains over the limit", f"{found:.4g} over {limit:.4g}", method=kind)
            ctx.see("spectra accepted")
    ctx.nontrivial(spec, m, low)


def separated(ctx, rng, i):
    """A motion whose peaks depend on the softness of the layer alone, so that the
    limit is exceeded in every second iteration (or in all of them)."""
    ps = gen.ps()
    thick, vs, wt = float(rng.uniform(3, 20)), float(rng.uniform(120, 500)), float(rng.uniform(16, 22))
    st = np.array([1e-6, 1e-5, 1e-4, 1e-3, 1e-2, 1e-1])
    low_g = float(rng.uniform(0.05, 0.4))
    mr = np.array([1, 0.98, 0.75, 0.75 * low_g + 0.25, low_g, low_g * 0.8])
    da = np.array([0.005, 0.01, 0.03, 0.08, 0.15, 0.2])
    limit, small, large = float(10 ** rng.uniform(-2.5, -1.5)), float(10 ** rng.uniform(-5.5, -4.5)), float(rng.uniform(1.6, 50))
    persistent = i % 3 == 2
    ratio = float(rng.uniform(0.4, 1))
    cap = int(rng.integers(4, 15))
    ctx.case(thick=thick, vs=vs, unit_wt=wt, curve=(st, mr, da), limit=limit, small=small, persistent=persistent, cap=cap, ratio=ratio)

    def profile():
        soil = ps.site.SoilType("s", wt, ps.site.ModulusReductionCurve("m", st, mr), ps.site.DampingCurve("d", st, da))
        return ps.site.Profile([
            ps.site.Layer(soil, thick, vs), ps.site.Layer(ps.site.SoilType("rock", 24, None, 0.01), 0, 1500)])

    accels = 1e-6 * rng.standard_normal(256)
    freqs = np.arange(129) / (256 * 0.01)
    gmax = wt / gen.G * vs**2

    def spectrum(strain):
        g, d = ref.curve(st, mr, strain, (0.001, 1)), ref.curve(st, da, strain, (0, 0.49))
        sh = ref.SH(freqs, [thick, 0.0], [np.sqrt(g * gmax / (wt / gen.G)), 1500.0], [wt / gen.G, 24 / gen.G], [float(d), 0.01])
        from ..eqlwork import strain_tf

        return strain_tf(sh, (1, 0.0), "outcrop", (0, thick / 2))[1:]

    # Peaks are proportional to the transfer function, and otherwise depend on its shape
    stiff, soft = spectrum(small), spectrum(limit)
    shapes = [s / s[0] for s in (stiff, soft)]
    if not (abs(soft[0]) > 1.2 * abs(stiff[0]) and np.max(np.abs(shapes[0] - shapes[1])) > 1e-3):
        ctx.see("not distinguishable")
        return

    class Switching(ps.motion.TimeSeriesMotion):
        calls = 0

        def calc_peak(self, tf=None, **kwds):
            if tf is None:
                return super().calc_peak(tf, **kwds)
            self.calls += 1
            shape = tf[1:] / tf[1]
            near = [np.sum(np.abs(shape - s)) for s in shapes]
            if near[0] < near[1]:
                return abs(tf[1] / stiff[0]) * large * limit / ratio
            return abs(tf[1] / soft[0]) * (large * limit if persistent else small) / ratio

    for tol in (0.01, 1.0):
        prof = profile()
        calc = ps.propagation.EquivalentLinearCalculator(ratio, tol, cap, limit)

        def go():
            calc(Switching("", "", 0.01, accels), prof, prof.location("outcrop", index=-1))
            return float(prof[0].strain)

        if persistent:
            ctx.raises(go, "result returned although strains stay over the limit", RuntimeError)
            ctx.see("persistently limited")
            continue
        try:
            got = go()
        except RuntimeError as e:
            ctx.fail("refused although the limit was not exceeded in successive iterations", str(e))
        ctx.true(
            min(abs(got / limit - 1), abs(got / small - 1)) < 1e-9, "strain of a limited analysis", f"{got} {limit} {small}",
        )
        ctx.see("limited now and then")
    if not persistent:
        # As many evaluations as without a limit, wherever the last limited iteration is
        for c in (cap, cap + 1):
            used = []
            for lim in (0.0, limit):
                prof, mot = profile(), Switching("", "", 0.01, accels)
                ps.propagation.EquivalentLinearCalculator(ratio, -1.0, c, lim)(mot, prof, prof.location("outcrop", index=-1))
                used.append(mot.calls)
            ctx.true(used[1] <= used[0], "iteration cap exceeded", f"{used[1]} strain evaluations with a limit, {used[0]} without", cap=c)
            ctx.see("caps of limited analyses")
    ctx.nontrivial(thick, vs, limit)


def unlimited(ctx, rng, i):
    """No limit, and a limit beyond all strains, are the same; strains are often above the default limit."""
    p = gen.ps().propagation
    spec, m, loc = eql_case(rng, n=int(rng.integers(1, 4)), nonlinear=True, rvt=False, pga=10 ** rng.uniform(-0.5, 1.3), base_loc=gen.base_loc("outcrop"))
    for la in spec["layers"][:-1]:
        la["vs"] = float(rng.uniform(60, 200))
    method = ["eql", "ka02", "zr15", "ko:20"][i % 4]
    cap = int(rng.integers(2, 7))
    ctx.case(profile=spec, motion=m, input=loc, method=method, cap=cap)
    got = []
    for limit in (0.0, 1e9, 1e12):
        prof = gen.build_profile(spec)
        if method == "eql":
            calc = p.EquivalentLinearCalculator(0.65, 0.01, cap, limit)
        else:
            calc = p.FrequencyDependentEqlCalculator(method, 0.65, 0.01, cap, limit)
        try:
            calc(gen.build_motion(m), prof, gen.build_location(prof, loc))
        except RuntimeError as e:
            ctx.fail("refused without a strain limit", str(e), limit=limit)
        got.append(snapshot(prof))
        ctx.see("strains above 5 %", any(np.max(s) > 0.05 for la in prof[:-1] for s in (np.atleast_1d(la.strain),)))
    for g in got[1:]:
        for x, y in zip(g, got[0]):
            ctx.same(x, y, "a limit that is never reached changes the result")
    ctx.see("analyses without a limit")
    ctx.nontrivial(spec, m, method)


MONITORS = [
    Monitor("unlimited", unlimited, 48, 1500, {"analyses without a limit": 25, "strains above 5 %": 10}),
    Monitor("separated", separated, 60, 1500, {"limited now and then": 30, "persistently limited": 15}),
    Monitor("converged", converged, 240, 8000, {"converged results judged": 80, "stopped before the cap": 80}),
    Monitor("caps", caps, 90, 2000, {"capped analyses": 60}),
    Monitor("limits", limits, 150, 5000, {"never limited": 70, "persistently limited": 60}),
]
