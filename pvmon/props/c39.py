"""Random outputs recorded from one to several random analyses are plotted in both
styles, profiles are plotted by every property (at rest, strained, edited), and the
evolution of the amplification is plotted for random depths, frequencies and wave
fields. What was drawn (line data, labels, step shapes, meshes, axes) is read back from
the axes and compared with the recorded results and the layers. Non-trivial: each
distinct plot."""
import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402

from .. import gen  # noqa: E402
from ..core import Monitor  # noqa: E402
from ..wavework import warm  # noqa: E402, F401
from .c27 import analysis, run  # noqa: E402
from .c28 import makers, pool  # noqa: E402

ASSUMPTIONS = [
    "the recorded results and their statistics are right (C27 to C29)",
    "complex transfer functions are not plotted",
    "statistics of signed time histories are not defined, so their plots are not judged",
]


def drawn(line, y):
    """Value a step-wise vertical line shows at the ordinates y."""
    xd, yd = np.asarray(line.get_xdata(orig=True), float), np.asarray(line.get_ydata(orig=True), float)
    style = line.get_drawstyle()
    out = []
    for v in y:
        # Between y[j] and y[j + 1] a step drawn before the point shows x[j], one after it x[j + 1]
        j = int(np.searchsorted(yd, v) - 1)
        out.append(xd[j] if style == "steps-pre" else xd[j + 1] if style == "steps-post" else np.nan)
    return np.array(out)


def outputs(ctx, rng, i):
    n = int(rng.choice([1, 1, 2, 3, 4, 6]))
    specs = pool(rng, n, ts=True)
    linear = any(s["calc"] == "linear" for s in specs)
    calcs = [run(s) for s in specs]
    names = [None if rng.random() < 0.3 else f"site {k}" for k in range(n)]
    makes = makers(rng, linear)
    ctx.case(runs=specs, names=names)
    for k in rng.permutation(len(makes))[:5]:
        out = makes[int(k)]()
        try:
            for c, name in zip(calcs, names):
                out(c, name)
        except Exception:
            # Locations missing from a profile, and the like (C28)
            ctx.see("not recordable")
            continue
        if np.iscomplexobj(out.values):
            continue
        kind = type(out).__name__
        refs, values = np.array(out.refs), np.array(out.values)
        rows = [(a, np.array(b), np.array(c)) for a, b, c in out.iter_results()]
        down = hasattr(out, "_ln_interp") or out.ylabel == "Depth (m)"
        for style in ("indiv", "stats"):
            if style == "stats" and kind.endswith("TSOutput"):
                continue
            own = rng.random() < 0.5
            before = set(plt.get_fignums())
            ax0 = plt.subplots()[1] if own else None
            if style == "stats" and n == 2:
                ctx.raises(lambda: out.plot(ax0, style), f"{kind}: statistics of two results")
                plt.close("all")
                continue
            with np.errstate(all="ignore"):
                ax = out.plot(ax=ax0, style=style) if rng.random() < 0.7 else out.plot(ax0, style)
            if own:
                ctx.true(ax is ax0, f"{kind}: draws into the axes given")
                ctx.equal(len(set(plt.get_fignums()) - before), 1, f"{kind}: opens another figure")
            lines = ax.get_lines()
            ctx.equal(len(lines), n + (style == "stats"), f"{kind} {style}: number of lines")
            for (name, r, v), li in zip(rows, lines):
                x, y = (v, r) if down else (r, v)
                ctx.near(np.asarray(li.get_xdata(orig=True), float), np.asarray(x, float), f"{kind} {style}: abscissas")
                ctx.near(np.asarray(li.get_ydata(orig=True), float), np.asarray(y, float), f"{kind} {style}: ordinates")
                if style == "indiv":
                    ctx.equal(li.get_label(), str(name), f"{kind}: label of a result")
                ctx.see("lines of results")
            if style == "stats":
                with np.errstate(all="ignore"):
                    st = out.calc_stats()
                x, y = (st["median"], st["ref"]) if down else (st["ref"], st["median"])
                ctx.near(np.asarray(lines[-1].get_xdata(orig=True), float), np.asarray(x, float), f"{kind}: median abscissas")
                ctx.near(np.asarray(lines[-1].get_ydata(orig=True), float), np.asarray(y, float), f"{kind}: median ordinates")
                ctx.equal(lines[-1].get_label(), "Median", f"{kind}: label of the median")
                ctx.see("medians")
            legend = ax.get_legend()
            if n > 1:
                shown = [t.get_text() for t in legend.get_texts()] if legend else []
                want = [str(r[0]) for r in rows] if style == "indiv" else ["Realization", "Median"]
                ctx.equal(shown, want, f"{kind} {style}: legend")
            ctx.equal((ax.get_xlabel(), ax.get_ylabel()), (out.xlabel, out.ylabel), f"{kind} {style}: axis labels")
            ctx.equal((ax.get_xscale(), ax.get_yscale()), (out.xscale, out.yscale), f"{kind} {style}: axis scales")
            ctx.true(ax.yaxis_inverted() == down, f"{kind} {style}: direction of the vertical axis")
            if down and style == "indiv" and kind in ("InitialVelProfile", "CompatVelProfile", "DampingProfile", "ShearModReducProfile"):
                attr = {"InitialVelProfile": "initial_shear_vel", "CompatVelProfile": "shear_vel", "DampingProfile": "damping", "ShearModReducProfile": "shear_mod_reduc"}[kind]
                for c, li in zip(calcs, lines):
                    las = [la for la in list(c.profile)[:-1] if la.thickness > 0]
                    mid = [la.depth + la.thickness / 2 for la in las]
                    yd = np.asarray(li.get_ydata(orig=True), float)
                    if las and np.all(np.isfinite(yd)):
                        ctx.close(drawn(li, mid), [float((np.max if attr == "damping" else np.min)(getattr(la, attr))) for la in las], f"{kind}: value drawn within each layer", 1e-9)
                        ctx.see("layers drawn by outputs", len(las))
            ctx.same(np.array(out.refs), refs, f"{kind}: plotting changes the reference")
            ctx.same(np.array(out.values), values, f"{kind}: plotting changes the values")
            plt.close("all")
            ctx.nontrivial(kind, style, specs)
        ctx.raises(lambda: out.plot(style="other"), "unknown style", BaseException)
        plt.close("all")


PROPS = ("damping", "density", "initial_shear_vel", "max_error", "shear_vel", "slowness", "strain", "travel_time", "unit_wt")


def profiles(ctx, rng, i):
    spec = gen.profile_spec(rng, n=int(rng.integers(1, 8)), max_thick=float(rng.choice([40, 40, 600])))
    prof = gen.build_profile(spec)
    ctx.case(profile=spec)
    for la in prof:
        if i % 2:
            la.strain = float(10 ** rng.uniform(-6, -2))
    if i % 3 == 0:
        prof[0].thickness = 7.25
    for prop in rng.permutation(PROPS)[:5]:
        want = [1 / la.initial_shear_vel if prop == "slowness" else float(getattr(la, prop)) for la in prof]
        if not np.all(np.isfinite(want)):
            continue
        ax0 = plt.subplots()[1] if rng.random() < 0.5 else None
        kw = {}
        if rng.random() < 0.4:
            kw["plot_kwds"] = {"label": "mine", "color": "C3"}
        if rng.random() < 0.4:
            kw["axis_kwds"] = {"ylim": (33.0, 1.0), "title": "t"}
        ax = prof.plot(str(prop), ax=ax0, **kw)
        if ax0 is not None:
            ctx.true(ax is ax0, "draws into the axes given")
        (li,) = ax.get_lines()
        tops = np.r_[0, np.cumsum([la.thickness for la in prof])][: len(prof)]
        mid = [t + la.thickness / 2 for t, la in zip(tops[:-1], prof)]
        if mid:
            ctx.close(drawn(li, mid), want[:-1], f"profile: {prop} drawn within each layer", 1e-12)
        ctx.close(np.asarray(li.get_xdata(orig=True), float), want, f"profile: {prop} of the layers", 1e-12)
        ctx.close(np.asarray(li.get_ydata(orig=True), float), tops, f"profile: depths of {prop}", 1e-12, 1e-9)
        if "plot_kwds" in kw:
            ctx.equal((li.get_label(), li.get_color()), ("mine", "C3"), "options of the line")
        lo, hi = ax.get_ylim()
        if "axis_kwds" in kw:
            ctx.equal((lo, hi, ax.get_title()), (33.0, 1.0, "t"), "options of the axes")
        elif len(prof) > 1:
            ctx.true(hi == 0 and lo > tops[-1], "profile: all layers visible, downwards", f"{lo} {hi}")
        ctx.true("Depth" in ax.get_ylabel() and ax.get_xlabel() != "", "profile: axis labels")
        ctx.see("profile properties drawn")
        ctx.nontrivial(spec, str(prop))
        plt.close("all")
    ctx.raises(lambda: prof.plot("no such property"), "unknown property")
    plt.close("all")


def judge_evolution(ctx, rng, calc, depths, where, freqs, field, z, kw):
    o = gen.ps().output
    prof, metric = calc.profile, kw["metric"]
    want = []
    mf = np.asarray(calc.motion.freqs)
    pos = mf > 0
    for d in where:
        tf = calc.calc_accel_tf(calc.loc_input, prof.location(field, depth=float(d)))
        if metric == "accel_tf":
            want.append(np.interp(np.log(freqs), np.log(mf[pos]), np.abs(tf)[pos]))
        else:
            want.append(calc.motion.calc_osc_accels(freqs, z, tf) / calc.motion.calc_osc_accels(freqs, z))
    want = np.array(want)
    if kw.get("normalized"):
        want = want / want[-1]
    ax0 = plt.subplots()[1] if rng.random() < 0.5 else None
    ax = o.plot_amplification_evolv(calc, depths=depths, freqs=freqs, ax=ax0, **kw)
    if ax0 is not None:
        ctx.true(ax is ax0, "draws into the axes given")
    (mesh,) = [c for c in ax.collections if hasattr(c, "get_coordinates")]
    got = np.asarray(mesh.get_array()).reshape(want.shape) if np.size(mesh.get_array()) == want.size else np.asarray(mesh.get_array())
    inside = (freqs >= mf[pos].min()) & (freqs <= mf.max()) if metric == "accel_tf" else np.ones(freqs.size, bool)
    ctx.close(got[:, inside], want[:, inside], f"{metric}: amplification drawn", 1e-9)
    xy = np.asarray(mesh.get_coordinates())
    ctx.close(xy[..., 0], np.broadcast_to(freqs, want.shape), f"{metric}: frequencies drawn", 1e-12)
    ctx.close(xy[..., 1], np.broadcast_to(np.asarray(where)[:, None], want.shape), f"{metric}: depths drawn", 1e-12)
    lo, hi = ax.get_ylim()
    ctx.true(hi == 0 and lo >= where[-1] * (1 - 1e-12), f"{metric}: depths visible", f"{lo} {hi} {where[-1]}")
    ctx.true(ax.get_xscale() == "log", f"{metric}: frequency axis")
    ctx.see("evolutions drawn")
    plt.close("all")


def evolution(ctx, rng, i):
    o = gen.ps().output
    while True:
        spec = analysis(rng, i)
        if spec["motion"]["kind"] == "ts":
            break
    calc = run(spec)
    prof = calc.profile
    metric = ["accel_tf", "site_amp"][i % 2]
    total = float(prof[-1].depth)
    depths = None if rng.random() < 0.3 and total > 0 else np.r_[0.0, np.sort(rng.uniform(0.1, total + 20, int(rng.integers(2, 6))))]
    freqs = np.sort(10 ** rng.uniform(-0.5, 1.2, int(rng.integers(3, 12))))
    kw = {"metric": metric}
    field = str(rng.choice(["within", "outcrop", "incoming_only"]))
    if rng.random() < 0.6:
        kw["wave_field_out"] = field
    else:
        field = "within"
    z = 0.05
    if rng.random() < 0.5:
        kw["osc_damping"] = z = float(rng.choice([0.02, 0.1]))
    if rng.random() < 0.4:
        kw["normalized"] = True
    if rng.random() < 0.3:
        kw["diverging_cmap"] = False
    where = np.linspace(0, total) if depths is None else depths
    ctx.case(run=spec, depths=depths, freqs=freqs, options=kw)
    judge_evolution(ctx, rng, calc, depths, where, freqs, field, z, kw)
    # The same analysis at as many other frequencies
    more = np.sort(10 ** rng.uniform(-0.5, 1.2, freqs.size))
    judge_evolution(ctx, rng, calc, depths, where, more, field, z, kw)
    ctx.see(f"evolutions of {metric}")
    ctx.nontrivial(spec, kw)
    plt.close("all")
    ctx.raises(lambda: o.plot_amplification_evolv(calc, metric="other", depths=where, freqs=freqs), "unknown metric")
    plt.close("all")


MONITORS = [
    Monitor("outputs", outputs, 60, 1500, {"lines of results": 400, "medians": 60, "layers drawn by outputs": 100}),
    Monitor("profiles", profiles, 60, 1500, {"profile properties drawn": 200}),
    Monitor("evolution", evolution, 40, 1000, {"evolutions of accel_tf": 15, "evolutions of site_amp": 15}),
]
