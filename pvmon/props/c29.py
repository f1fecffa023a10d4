"""Ensembles of 1 to 25 runs over profiles with differing layering, recorded in every
output with a table or statistics. Medians, logarithmic deviations and tables are
recomputed value by value from the recorded runs (depth profiles through an explicit
stepwise layer value at each depth, on default and requested depths), for runs in another
order as well, and must leave the recorded data unchanged. Non-trivial: each distinct
ensemble."""
import math
import warnings

import numpy as np
import pandas as pd

from .. import gen
from ..core import Monitor
from ..wavework import warm  # noqa: F401
from .c27 import run
from .c28 import makers, pool

ASSUMPTIONS = ["recorded values are right (judged by C27 and C28)"]


def stats(rows):
    """Median and logarithmic deviation of each row of runs."""
    med, dev = [], []
    for row in rows:
        ln = [math.log(v) for v in row if not math.isnan(v) and v > 0]
        zero = any(v == 0 for v in row)
        if zero:
            med.append(0.0)
            dev.append(None)
        elif not ln:
            med.append(math.nan)
            dev.append(math.nan)
        else:
            mu = math.fsum(ln) / len(ln)
            med.append(math.exp(mu))
            dev.append(math.sqrt(math.fsum((v - mu) ** 2 for v in ln) / len(ln)))
    return med, dev


def compare(ctx, got, med, dev, label):
    ctx.equal(len(got["median"]), len(med), f"{label} length of the median")
    ctx.equal(len(got["ln_std"]), len(med), f"{label} length of the deviation")
    g = np.asarray(got["median"], float)
    s = np.asarray(got["ln_std"], float)
    for k, (m, d) in enumerate(zip(med, dev)):
        if math.isnan(m):
            ctx.true(np.isnan(g[k]), f"{label} median without values", f"{g[k]}")
            continue
        ctx.close(g[k], m, f"{label} median", 1e-9)
        if d is not None:
            ctx.close(s[k], d, f"{label} logarithmic deviation", 1e-7, 1e-9)
        ctx.see("statistics")


def step(refs, values, x):
    """Value of the layer that holds x: bounds in refs, deeper takes the last."""
    for r, v in zip(refs, values):
        if x <= r:
            return v
    return values[-1]


def names_for(rng, n):
    u = rng.random()
    if u < 0.35:
        return [None] * n, [f"r{k + 1}" for k in range(n)]
    if u < 0.65:
        w = [f"run {k}" for k in rng.permutation(60)[:n]]
        if n > 1 and rng.random() < 0.25:
            w[-1] = w[0]
        return w, w
    w = [(f"m{k % 2}", int(k), "x") for k in range(n)]
    return w, w


def record(out, calcs, names):
    for c, n in zip(calcs, names):
        out(c, name=n)


def columns(a, n):
    return np.reshape(np.asarray(a), (-1, n)) if np.ndim(a) == 1 else np.asarray(a)


def quietly(fn):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn()


def ensemble(ctx, rng, i):
    n = int(rng.choice([1, 1, 2, 2, 3, 4, 6, 8] if i % 9 else [11, 13, 25]))
    specs = pool(rng, n, ("linear", "eql", "fdm") if i % 2 else ("eql", "fdm"))
    linear = any(s["calc"] == "linear" for s in specs)
    for s in specs:
        # Locations must exist in every profile
        while len(s["profile"]["layers"]) < 6 and rng.random() < 0.9:
            s["profile"]["layers"].insert(0, dict(s["profile"]["layers"][int(rng.integers(len(s["profile"]["layers"]) - 1))]))
        # The uppermost layer has a strain
        s["profile"]["layers"][0]["thickness"] = s["profile"]["layers"][0]["thickness"] or 1.5
    calcs = [run(s) for s in specs]
    mk = makers(rng, linear)
    given, names = names_for(rng, n)
    ctx.case(analyses=specs, names=names)
    order = rng.permutation(n)
    done = 0
    for make in mk:
        o = make()
        kind = type(o).__name__
        profile = kind.endswith("Profile")
        if kind.endswith("TSOutput"):
            if kind != "AriasIntensityTSOutput":
                continue
        try:
            record(o, calcs, given)
        except Exception:
            # A location or time history that some analysis does not have
            continue
        if np.iscomplexobj(o.values):
            continue
        other = make()
        record(other, [calcs[k] for k in order], [names[k] for k in order])
        done += 1
        v0, r0 = np.array(o.values), np.array(o.refs)
        vals, refs = columns(o.values, n), np.asarray(o.refs)

        if not profile:
            got = quietly(o.calc_stats)
            med, dev = stats(vals)
            ctx.near(got["ref"], r0, f"{kind} reference of the statistics")
            compare(ctx, got, med, dev, kind)
            compare(ctx, quietly(other.calc_stats), med, dev, f"{kind} in another order,")
            if kind == "AriasIntensityTSOutput":
                ctx.raises(o.to_dataframe, f"{kind} table")
            else:
                df = quietly(lambda: o.calc_stats(as_dataframe=True))
                ctx.true(isinstance(df, pd.DataFrame), f"{kind} statistics as a table")
                ctx.near(np.asarray(df.index), r0, f"{kind} index of the statistics")
                compare(ctx, {c: df[c].to_numpy() for c in ("median", "ln_std")}, med, dev, f"{kind} table,")
                table(ctx, o.to_dataframe(), names, r0, vals, kind)
        else:
            runs = []
            for k in range(n):
                r = refs if refs.ndim == 1 else refs[:, k]
                keep = ~np.isnan(r)
                runs.append((r[keep], vals[keep, k]))
            top = max(float(r.max()) for r, _ in runs)
            asked = np.sort(rng.uniform(0, top * 1.2, int(rng.integers(1, 12))))
            if rng.random() < 0.4:
                # Exactly on interfaces
                asked = np.unique(np.r_[asked, runs[int(rng.integers(n))][0]])
            if rng.random() < 0.3:
                # In any order, and again
                asked = rng.permutation(np.r_[asked, asked[: int(rng.integers(0, 3))]])
                ctx.see("unsorted depths")
            for ref in (None, asked, list(asked)):
                if ref is None:
                    got = quietly(o.calc_stats)
                    x = np.asarray(got["ref"], float)
                    ctx.true(x.size >= 2 and x.min() == 0 and top <= x.max() <= 1.2 * top and np.all(np.diff(x) > 0), f"{kind} default depths")
                else:
                    got = quietly(lambda: o.calc_stats(ref=ref))
                    x = asked
                    ctx.near(got["ref"], x, f"{kind} requested depths")
                rows = [[step(r, v, d) for r, v in runs] for d in x]
                med, dev = stats(rows)
                compare(ctx, got, med, dev, kind)
            compare(ctx, quietly(lambda: other.calc_stats(ref=asked)), med, dev, f"{kind} in another order,")
            df = quietly(lambda: o.calc_stats(as_dataframe=True, ref=asked))
            ctx.near(np.asarray(df.index), asked, f"{kind} index of the statistics")
            compare(ctx, {c: df[c].to_numpy() for c in ("median", "ln_std")}, med, dev, f"{kind} table,")
            rows = np.array(rows)
            table(ctx, quietly(lambda: o.to_dataframe(ref=asked)), names, asked, rows, kind, 1e-12)
            df = quietly(o.to_dataframe)
            x = np.asarray(df.index, float)
            ctx.true(x.min() == 0 and abs(x.max() - top) <= 1e-9 * top, f"{kind} default depths of the table")
            rows = np.array([[step(r, v, min(d, top)) for r, v in runs] for d in x])
            # A default depth may fall on an interface to rounding
            ok = np.array([all(np.abs(r - d).min() > 1e-9 * top or d == 0 for r, _ in runs) for d in x])
            table(ctx, df.iloc[ok], names, x[ok], rows[ok], kind, 1e-12)
        ctx.same(o.values, v0, f"{kind} values afterwards")
        ctx.same(o.refs, r0, f"{kind} references afterwards")
        ctx.equal(list(o.names), names, f"{kind} names afterwards")
        ctx.see(f"{'profile' if profile else 'spectrum'} ensembles")
        ctx.see("single-run ensembles", n == 1)
    if done:
        ctx.nontrivial(specs, names)


def arbitrary(ctx, rng, i):
    """Recorded values of any kind: zeros and missing values of some runs only."""
    ps = gen.ps()
    n, m = int(rng.choice([1, 2, 3, 5, 9, 15, 40])), int(rng.integers(1, 12))
    values = np.exp(rng.normal(0, float(rng.choice([0.01, 1, 5])), (m, n)))
    holes = rng.random() < 0.7
    if holes:
        values[rng.random((m, n)) < 0.15] = np.nan
        values[rng.random((m, n)) < 0.1] = 0.0
    freqs = np.sort(rng.uniform(0.1, 50, m))
    ctx.case(values=values, freqs=freqs)

    class Given(ps.motion.TimeSeriesMotion):
        col = 0

        def calc_osc_accels(self, *a, **k):
            return values[:, self.col].copy()

    prof = gen.build_profile(gen.profile_spec(rng))
    calc = ps.propagation.LinearElasticCalculator()
    o = ps.output.ResponseSpectrumOutput(freqs, ps.output.OutputLocation("outcrop", index=0), 0.05)
    given, names = names_for(rng, n)
    for k in range(n):
        mot = Given("", "", 0.01, rng.standard_normal(64))
        mot.col = k
        calc(mot, prof, prof.location("outcrop", index=-1))
        o(calc, name=given[k])
    ctx.near(columns(o.values, n), values, "recorded values")
    med, dev = stats(values)
    compare(ctx, quietly_all(o.calc_stats), med, dev, "given values")
    df = quietly_all(lambda: o.calc_stats(as_dataframe=True))
    compare(ctx, {c: df[c].to_numpy() for c in ("median", "ln_std")}, med, dev, "table of given values")
    table(ctx, o.to_dataframe(), names, freqs, values, "given values")
    ctx.near(columns(o.values, n), values, "recorded values afterwards")
    ctx.see("ensembles with missing or zero values", holes)
    ctx.nontrivial(values.tobytes())


def quietly_all(fn):
    with np.errstate(all="ignore"):
        return quietly(fn)


def table(ctx, df, names, index, values, kind, rtol=0.0):
    ctx.true(isinstance(df, pd.DataFrame), f"{kind} table")
    ctx.equal([c for c in df.columns], names, f"{kind} columns")
    if isinstance(names[0], tuple):
        ctx.true(isinstance(df.columns, pd.MultiIndex), f"{kind} nested columns")
    ctx.near(np.asarray(df.index, float), index, f"{kind} index")
    got = df.to_numpy()
    nan = np.isnan(values)
    ctx.same(np.isnan(got), nan, f"{kind} missing table values")
    ctx.close(got[~nan], values[~nan], f"{kind} table values", rtol)
    for k, name in enumerate(names):
        if names.count(name) == 1:
            ctx.near(np.asarray(df[name], float), got[:, k], f"{kind} column of a run")
    ctx.see("tables")


MONITORS = [
    Monitor("ensemble", ensemble, 90, 3000, {"statistics": 15000, "tables": 500, "profile ensembles": 250, "spectrum ensembles": 150, "single-run ensembles": 60}),
    Monitor("arbitrary", arbitrary, 120, 4000, {"ensembles with missing or zero values": 40}),
]
