"""Random histories of runs, named and unnamed, resets, collections and failing
recordings (motions without a time history, locations missing from a smaller profile,
profiles without layers, faults injected at a random call of the analysis) over analyses
with differing layer counts and record lengths. After every step every output is compared
with a list of the successful runs since its last reset, each taken from a fresh output.
Non-trivial: each distinct history."""
import numpy as np

from .. import gen
from ..core import Monitor
from ..wavework import warm  # noqa: F401
from .c27 import analysis, run

ASSUMPTIONS = ["single recordings are right (judged by C27)"]


class Fault(Exception):
    pass


class Faulty:
    """Analysis whose k-th computation fails."""

    def __init__(self, target, countdown):
        self._t, self._c = target, countdown

    def __getattr__(self, name):
        v = getattr(self._t, name)
        if name == "motion":
            # The output asks for the kind of motion
            return faulty_motion(v, self._c)
        if callable(v) and name.startswith("calc_"):
            return self._guard(v)
        return v

    def _guard(self, fn):
        def call(*a, **k):
            self._c[0] -= 1
            if self._c[0] < 0:
                raise Fault()
            return fn(*a, **k)

        return call


def faulty_motion(mot, c):
    import copy

    m = copy.copy(mot)
    for name in ("calc_time_series", "calc_osc_accels", "calc_peak"):
        if hasattr(mot, name):
            setattr(m, name, Faulty(mot, c)._guard(getattr(mot, name)))
    return m


def bare_spec(rng):
    """Half-space alone."""
    p = gen.profile_spec(rng, n=1)
    p["layers"] = p["layers"][-1:]
    return {"calc": "linear", "profile": p, "motion": gen.ts_spec(rng, n=100), "loc": gen.base_loc()}


def pool(rng, n, kinds=("linear", "eql", "fdm"), ts=None):
    """Analyses of different sizes."""
    specs = []
    while len(specs) < n:
        s = analysis(rng, int(rng.integers(4)))
        if s["calc"] not in kinds or (ts and s["motion"]["kind"] != "ts"):
            continue
        specs.append(s)
    return specs


def makers(rng, linear):
    """Factories of outputs; each call makes a fresh one with the same options."""
    o = gen.ps().output
    freqs = np.sort(10 ** rng.uniform(-0.3, 1.0, int(rng.integers(1, 6))))
    if rng.random() < 0.2:
        freqs = rng.permutation(10 ** rng.uniform(-0.5, 1.4, int(rng.integers(6, 40))))
    z, z2 = 0.05, float(rng.choice([0.05, 0.01, 0.2]))
    kos = [None if rng.random() < 0.6 else float(rng.choice([15, 30, 60])) for _ in range(2)]
    flags = [bool(v) for v in rng.random(3) < 0.5]
    where = [("within", 0.0, None), ("outcrop", None, 0), ("within", None, int(rng.integers(0, 5))), ("within", float(rng.uniform(0, 30)), None), ("incoming_only", None, -1)]

    def loc(within=False):
        while True:
            f, d, k = where[int(rng.integers(len(where)))]
            if f == "within" or not within:
                return o.OutputLocation(f, depth=d, index=k)

    la, lw, lb, lc = loc(), loc(True), loc(), loc()
    out = [
        lambda: o.AccelerationTSOutput(la),
        lambda: o.AriasIntensityTSOutput(lb),
        lambda: o.StrainTSOutput(lw, flags[0]),
        lambda: o.StressTSOutput(lw, damped=flags[1], normalized=flags[2]),
        lambda: o.FourierAmplitudeSpectrumOutput(freqs, la, ko_bandwidth=kos[0]),
        lambda: o.ResponseSpectrumOutput(list(freqs), lb, z2),
        lambda: o.ResponseSpectrumRatioOutput(freqs, la, lb, z),
        lambda: o.AccelTransferFunctionOutput(freqs, lc, la, ko_bandwidth=kos[1]),
        lambda: o.AccelTransferFunctionOutput(freqs, lc, lb, absolute=False),
        lambda: o.InitialVelProfile(),
        lambda: o.CompatVelProfile(),
        lambda: o.DampingProfile(),
        lambda: o.ShearModReducProfile(),
        lambda: o.MaxAccelProfile(),
    ]
    if not linear:
        out += [lambda: o.MaxStrainProfile(), lambda: o.CyclicStressRatioProfile()]
    return out


def columns(a, n, label, ctx):
    """(rows, n) view of an accumulated array."""
    a = np.asarray(a)
    if n == 1 and a.ndim == 1:
        return a[:, None]
    ctx.equal(a.ndim, 2, f"{label} dimensions")
    ctx.equal(a.shape[1], n, f"{label} columns")
    return a


def padded(cols):
    """Columns padded at the end with missing values."""
    size = max(len(c) for c in cols)
    dtype = np.result_type(float, *[np.asarray(c).dtype for c in cols])
    out = np.full((size, len(cols)), np.nan, dtype=dtype)
    for k, c in enumerate(cols):
        out[: len(c), k] = c
    return out


class Model:
    """What an output must hold."""

    def __init__(self, make):
        self.make = make
        self.out = make()
        self.fixed = np.array(self.out.refs) if np.size(self.out.refs) else None
        self.runs = []
        self.held = []

    def expected(self, calc):
        """Reference and values of one run, or None when it cannot be recorded."""
        fresh = self.make()
        try:
            fresh(calc, name="x")
        except Exception:
            return None
        return np.array(fresh.refs), np.array(fresh.values)

    def check(self, ctx):
        o, n = self.out, len(self.runs)
        ctx.equal(list(o.names), [r[0] for r in self.runs], "names")
        if not n:
            ctx.true(o.values is None or np.size(o.values) == 0, "empty values", f"{o.values!r}")
            if self.fixed is None:
                ctx.equal(np.size(o.refs), 0, "empty references")
            else:
                ctx.same(o.refs, self.fixed, "fixed references of an empty output")
            return
        want = padded([r[2] for r in self.runs])
        ctx.near(columns(o.values, n, "values", ctx), want, "values")
        if self.fixed is None:
            ctx.near(columns(o.refs, n, "references", ctx), padded([r[1] for r in self.runs]), "references")
        else:
            ctx.same(o.refs, self.fixed, "fixed references")
        results = list(o.iter_results())
        ctx.equal(len(results), n, "number of iterated results")
        for (name, refs, values), (wname, wref, wval) in zip(results, self.runs):
            ctx.equal(name, wname, "iterated name")
            for got, w, what in ((refs, wref, "references"), (values, wval, "values")):
                got = np.asarray(got)
                ctx.true(got.ndim == 1 and got.size >= w.size, f"size of the iterated {what}")
                ctx.near(got[: w.size], w, f"iterated {what}")
                ctx.true(np.all(np.isnan(got[w.size :])), f"padding of the iterated {what}")
        for a, b in self.held:
            ctx.same(a, b, "arrays read earlier")
        if len(self.held) < 6:
            self.held.append((o.values, np.array(o.values)))
            self.held.append((o.refs, np.array(o.refs)))
        ctx.see("states compared")


def history(ctx, rng, i):
    o = gen.ps().output
    specs = pool(rng, int(rng.integers(2, 5)), ("linear", "eql", "fdm") if i % 2 else ("eql", "fdm"))
    if rng.random() < 0.3:
        specs.append(bare_spec(rng))
    linear = any(s["calc"] == "linear" for s in specs)
    calcs = [run(s) for s in specs]
    mk = makers(rng, linear)
    pick = rng.choice(len(mk), min(len(mk), int(rng.integers(3, 8))), replace=False)
    models = [Model(mk[k]) for k in pick]
    coll = o.OutputCollection([m.out for m in models])
    ctx.equal(len(coll), len(models), "members of the collection")
    ctx.true(all(a is m.out for a, m in zip(coll, models)), "order of the collection")
    ctx.true(all(coll[k] is m.out and m.out in coll for k, m in enumerate(models)), "collection lookups")
    known = {}

    def single(m, k):
        key = (id(m), k)
        if key not in known:
            known[key] = m.expected(calcs[k])
        return known[key]

    ops = []
    for _ in range(int(rng.integers(5, 14))):
        u = rng.random()
        ops.append("fault" if u < 0.15 else "reset" if u < 0.25 else "reset all" if u < 0.3 else "collection" if u < 0.6 else "run")
    ctx.case(analyses=specs, operations=ops, outputs=[type(m.out).__name__ for m in models])
    count, used = 0, []
    for op in ops:
        k = int(rng.integers(len(calcs)))
        count += 1
        given = (None, f"n{count}", (f"a{count}", count), None, (0, "", False, 0.0)[count % 4], count)[int(rng.choice(6, p=[0.25, 0.25, 0.2, 0.1, 0.1, 0.1]))]
        if used and rng.random() < 0.25:
            # The same name again
            given = used[int(rng.integers(len(used)))]
        if given is not None:
            used.append(given)
        mine = [models[int(rng.integers(len(models)))]] if op != "collection" else models

        def name_for(m):
            return given if given is not None else f"r{len(m.runs) + 1}"

        if op == "reset":
            mine[0].out.reset()
            mine[0].runs, mine[0].held = [], mine[0].held
            ctx.see("resets")
        elif op == "reset all":
            coll.reset()
            for m in models:
                m.runs = []
            ctx.see("resets")
        elif op == "fault":
            m = mine[0]
            count_down = [int(rng.integers(0, 5))]
            want = single(m, k)
            try:
                m.out(Faulty(calcs[k], count_down), name=given)
                done = True
            except Exception:
                done = False
                ctx.see("failed recordings")
            if done:
                ctx.true(want is not None, "recorded although it must fail")
                m.runs.append((name_for(m), *want))
        else:
            wants = [single(m, k) for m in mine]
            try:
                if op == "collection":
                    coll(calcs[k], name=given) if given is not None or rng.random() < 0.5 else coll(calcs[k])
                elif given is None and rng.random() < 0.5:
                    mine[0].out(calcs[k])
                else:
                    mine[0].out(calcs[k], name=given)
                done = True
            except Exception:
                done = False
                ctx.see("failed recordings")
            ctx.equal(done, all(w is not None for w in wants), "recording succeeds")
            for m, w in zip(mine, wants):
                if done:
                    m.runs.append((name_for(m), *w))
                elif len(m.out.names) != len(m.runs) and w is not None:
                    # A member that was served before the failing one
                    m.runs.append((name_for(m), *w))
            ctx.see("recordings")
        for m in models:
            m.check(ctx)
    ctx.nontrivial(specs, ops)


def appended(ctx, rng, i):
    """Accumulating arrays pads at the end only."""
    o = gen.ps().output
    cols = []
    many = None
    for _ in range(int(rng.integers(2, 7))):
        x = rng.standard_normal(int(rng.integers(1, 9)))
        u = rng.random()
        if u < 0.2:
            x = (x * 10).astype(int)
        elif u < 0.35:
            x = x + 1j * rng.standard_normal(x.size)
        cols.append(x)
        if many is None:
            many = x
            continue
        kept, given = np.array(many), np.array(x)
        new = o.append_arrays(many, x)
        ctx.same(many, kept, "first argument")
        ctx.same(x, given, "second argument")
        many = new
        ctx.same(many, padded(cols), "appended arrays")
        ctx.see("appended arrays")
    ctx.case(columns=cols)
    ctx.nontrivial(cols)


MONITORS = [
    Monitor("history", history, 150, 5000, {"states compared": 2000, "failed recordings": 60, "resets": 60, "recordings": 500}),
    Monitor("append", appended, 200, 6000, {"appended arrays": 300}),
]
