"""Monitor runtime: cases, observations, verdicts, evidence and replay."""
import argparse
import collections
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import re
import signal
import sys
import time
import traceback
import warnings

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = os.path.join(VERIF, "known_findings.txt")
MAX_VIOLATIONS = 20
CASE_WATCHDOG_S = 120
# Processor time after which a case (usually milliseconds) is said never to end
CASE_CPU_S = 60
CRASHES = {signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGFPE, signal.SIGILL}


class Violation(Exception):
    """An oracle refuted the property for the current case."""

    def __init__(self, label, message, **data):
        super().__init__(f"{label}: {message}")
        self.label = label
        self.message = message
        self.data = data


class Watchdog(BaseException):
    """A case ran for so long that nothing was decided."""


class Endless(BaseException):
    """The code under test runs on without end."""


def alike(a, b, tol=1e-11):
    """Nested data equal, numbers up to rounding (relative to the largest of an array)."""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(alike(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(alike(a[k], b[k], tol) for k in a)
    num = (int, float, complex, np.ndarray, np.generic)
    if isinstance(a, num) and isinstance(b, num):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype.kind not in "iufcb" or b.dtype.kind not in "iufcb":
            return bool(np.all(a == b))
        with np.errstate(all="ignore"):
            fin = np.isfinite(b)
            scale = np.max(np.abs(b[fin]), initial=0.0)
            ok = (a == b) | (np.isnan(a) & np.isnan(b)) | (fin & (np.abs(a - b) <= tol * scale))
        return bool(np.all(ok))
    return a == b


class Monitor:
    """One oracle with its workload: fn(ctx, rng, index)."""

    def __init__(self, name, fn, quick, thorough, need=None, weight=1.0):
        self.name, self.fn = name, fn
        self.quick, self.thorough = quick, thorough
        # observation kind -> minimum count (quick tier) for a verdict
        self.need = need or {}

    def count(self, tier):
        return self.quick if tier == "quick" else self.thorough


def jsonable(x, depth=0):
    if depth > 6:
        return repr(x)[:200]
    if isinstance(x, (bool, int, str)) or x is None:
        return x
    if isinstance(x, float):
        return x if np.isfinite(x) else repr(x)
    if isinstance(x, complex):
        return repr(x)
    if isinstance(x, np.generic):
        return jsonable(x.item(), depth)
    if isinstance(x, np.ndarray):
        if x.size > 60:
            return {
                "shape": list(x.shape),
                "sha1": hashlib.sha1(np.ascontiguousarray(x).tobytes()).hexdigest()[:12],
                "head": jsonable(x.ravel()[:4].tolist(), depth + 1),
            }
        return jsonable(x.tolist(), depth + 1)
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        x = list(x)
        if len(x) > 60:
            return jsonable(np.asarray(x) if not isinstance(x[0], (dict, list, tuple)) else x[:60], depth + 1)
        return [jsonable(v, depth + 1) for v in x]
    return repr(x)[:200]


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.obs = collections.Counter()
        self.evaluations = 0
        self.keys = set()
        self.samples = []
        self.violations = []
        self.harness_errors = []
        self.inconclusive = []
        self.scratch = os.environ.get("PVMON_SCRATCH", "/tmp")
        self.monitor = None
        self.index = None
        self._spec = None

    # ---- observations
    def see(self, kind, n=1):
        """Count an observation of the system under test."""
        self.obs[kind] += int(n)

    def nontrivial(self, *key):
        """Record this case as non-trivial; distinct keys are counted."""
        h = hashlib.sha1(repr(jsonable(key)).encode()).hexdigest()[:16]
        self.keys.add(f"{self.monitor}:{h}")

    def case(self, **spec):
        """Describe the inputs of the current case (kept for replay/samples)."""
        self._spec = spec

    # ---- oracles
    def fail(self, label, message, **data):
        raise Violation(label, message, **data)

    def true(self, cond, label, message="", **data):
        self.obs["oracle evaluations"] += 1
        if not cond:
            self.fail(label, message or "condition is false", **data)

    def equal(self, got, want, label, **data):
        self.obs["oracle evaluations"] += 1
        if not (got == want):
            self.fail(label, f"got {got!r}, expected {want!r}"[:600], **data)

    def same(self, got, want, label, **data):
        """Bit-for-bit equality of arrays (nan equal nan)."""
        self.obs["oracle evaluations"] += 1
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape:
            self.fail(label, f"shape {g.shape}, expected {w.shape}", **data)
        eq = g == w
        if g.dtype.kind in "fc" and w.dtype.kind in "fc":
            eq = eq | (np.isnan(g) & np.isnan(w))
        if not np.all(eq):
            i = np.argwhere(~np.atleast_1d(eq))[0]
            self.fail(
                label,
                f"differ at {tuple(int(j) for j in i)}: got "
                f"{np.atleast_1d(g)[tuple(i)]!r}, expected {np.atleast_1d(w)[tuple(i)]!r}",
                **data,
            )

    def near(self, got, want, label, **data):
        """Equality up to rounding between two executions of the same code (nan equal nan)."""
        self.obs["oracle evaluations"] += 1
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape:
            self.fail(label, f"shape {g.shape}, expected {w.shape}", **data)
        if not alike(g, w):
            self.fail(label, f"got {got!r}, expected {want!r}"[:600], **data)

    def close(self, got, want, label, rtol=1e-9, atol=0.0, **data):
        """|got - want| <= atol + rtol*|want| elementwise; nan never close."""
        self.obs["oracle evaluations"] += 1
        g, w = np.asarray(got), np.asarray(want)
        if g.dtype == object or g.dtype.kind not in "iufcb":
            self.fail(label, f"not numeric: {got!r}"[:300], **data)
        if g.shape != w.shape:
            self.fail(label, f"shape {g.shape}, expected {w.shape}", **data)
        with np.errstate(all="ignore"):
            bad = ~(np.abs(g - w) <= atol + rtol * np.abs(w))
            bad &= ~(g == w)
        if np.any(bad):
            i = tuple(int(j) for j in np.argwhere(np.atleast_1d(bad))[0])
            self.fail(
                label,
                f"at {i} of {g.shape} ({int(np.sum(bad))} differ): got "
                f"{np.atleast_1d(g)[i]!r}, expected {np.atleast_1d(w)[i]!r}",
                **data,
            )

    def raises(self, fn, label, exc=Exception, **data):
        """fn must refuse (raise); returns the exception."""
        self.obs["oracle evaluations"] += 1
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                value = fn()
        except exc as e:
            return e
        self.fail(label, f"was not refused, returned {value!r}"[:300], **data)


def _alarm(*_):
    raise Watchdog()


def _endless(*_):
    raise Endless()


def cpu_of(pid):
    """CPU seconds of a worker started here."""
    with open(f"/proc/{pid}/stat") as fp:
        f = fp.read().rsplit(")", 1)[1].split()
    return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")


def run_case(ctx, mon, index):
    ctx.monitor, ctx.index, ctx._spec = mon.name, index, None
    rng = np.random.default_rng(
        [ctx.seed, int(ctx.prop[1:]), int(hashlib.sha1(mon.name.encode()).hexdigest()[:8], 16), index]
    )
    # The system under test draws from numpy's global generator
    np.random.seed((ctx.seed * 1000003 + index * 7919 + int(ctx.prop[1:])) % 2**32)
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _endless)
    signal.alarm(CASE_WATCHDOG_S)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                mon.fn(ctx, rng, index)
        ctx.evaluations += 1
        ctx.obs[f"cases: {mon.name}"] += 1
        if len(ctx.samples) < 2 and ctx._spec is not None:
            ctx.samples.append({"monitor": mon.name, "index": index, **jsonable(ctx._spec)})
    except Watchdog:
        ctx.inconclusive.append(f"{mon.name}[{index}] did not end within {CASE_WATCHDOG_S} s")
    except Endless:
        ctx.violations.append(
            {
                "monitor": mon.name,
                "index": index,
                "label": "does not end",
                "message": f"no result after {CASE_CPU_S} s of processor time",
                "data": {},
                "spec": jsonable(ctx._spec),
            }
        )
    except MemoryError:
        ctx.inconclusive.append(f"{mon.name}[{index}] ran out of memory")
    except Violation as v:
        ctx.violations.append(
            {
                "monitor": mon.name,
                "index": index,
                "label": v.label,
                "message": v.message[:2000],
                "data": jsonable(v.data),
                "spec": jsonable(ctx._spec),
            }
        )
    except Exception as e:
        # On the unchanged tree no case raises, so an exception means that the
        # code under test failed, or returned something no oracle can read.
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if "pystrata" in f.filename] or tb
        loc = os.path.basename(where[-1].filename)
        ctx.violations.append(
            {
                "monitor": mon.name,
                "index": index,
                "label": f"exception {type(e).__name__} in {loc}:{where[-1].name}",
                "message": "".join(traceback.format_exception(e))[-3000:],
                "data": {},
                "spec": jsonable(ctx._spec),
            }
        )
    finally:
        signal.alarm(0)
        signal.setitimer(signal.ITIMER_PROF, 0)


def run_shard(prop, tier, seed, shard, nshards, conn=None, mod=None, pos=None):
    ctx = Ctx(prop, tier, seed)
    mod = mod or importlib.import_module(f"pvmon.props.{prop.lower()}")
    ctx.scratch = os.path.join(ctx.scratch, f"s{shard}")
    os.makedirs(ctx.scratch, exist_ok=True)
    timing = {}
    for j, mon in enumerate(mod.MONITORS):
        t0 = time.time()
        for i in range(mon.count(tier)):
            if i % nshards != shard:
                continue
            if pos is not None:
                pos[3 * shard : 3 * shard + 3] = [j, i, time.process_time()]
            run_case(ctx, mon, i)
            if len(ctx.violations) >= MAX_VIOLATIONS:
                break
            if any(v["label"] == "does not end" for v in ctx.violations):
                break
            if len(ctx.inconclusive) >= 3:
                break
        timing[mon.name] = time.time() - t0
        if any(v["label"] == "does not end" for v in ctx.violations):
            break
    out = dict(
        obs=dict(ctx.obs),
        evaluations=ctx.evaluations,
        keys=sorted(ctx.keys),
        samples=ctx.samples,
        violations=ctx.violations,
        inconclusive=ctx.inconclusive,
        timing=timing,
    )
    if conn is not None:
        conn.send(out)
        conn.close()
    return out


def known_findings(prop):
    """(key, text) of the findings listed for the property."""
    found = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            m = re.match(r"finding: property=(C\d+) key=(\S+) (.*)", line.strip())
            if m and m[1] == prop:
                found.append((m[2], m[3]))
    return found


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=0)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED") or 1)
    prop, tier = a.prop.upper(), a.tier
    t0 = time.time()

    mod = importlib.import_module(f"pvmon.props.{prop.lower()}")
    if a.replay:
        r = json.load(open(a.replay))
        ctx = Ctx(prop, r["tier"], r["seed"])
        mon = next(m for m in mod.MONITORS if m.name == r["monitor"])
        run_case(ctx, mon, r["index"])
        for v in ctx.violations:
            print(json.dumps(v, indent=1))
        print("violated" if ctx.violations else "held")
        return 1 if ctx.violations else 0

    try:
        # Imported once for all shards; a case reports a failure to import
        import pystrata  # noqa: F401
    except Exception:
        pass
    warm = getattr(mod, "warm", None)
    if warm:
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                signal.signal(signal.SIGPROF, _endless)
                signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
                warm()
        except (Exception, Endless):
            # The cases will report it with their inputs
            pass
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
    nshards = a.jobs or (6 if tier == "quick" else 8)
    nshards = max(1, min(nshards, max(m.count(tier) for m in mod.MONITORS)))
    results, lost = [], []
    if nshards == 1:
        results.append(run_shard(prop, tier, seed, 0, 1, mod=mod))
    else:
        mpx = mp.get_context("fork")
        procs = []
        pos = mp.RawArray("d", [-1.0] * (3 * nshards))
        for s in range(nshards):
            rx, tx = mpx.Pipe(duplex=False)
            p = mpx.Process(target=run_shard, args=(prop, tier, seed, s, nshards, tx, mod, pos))
            p.start()
            tx.close()
            procs.append((s, p, rx))
        for s, p, rx in procs:
            try:
                while not rx.poll(2):
                    # Code that runs outside the interpreter ignores the alarms
                    if p.is_alive() and cpu_of(p.pid) - pos[3 * s + 2] > 2 * CASE_CPU_S:
                        p.kill()
                        raise EOFError("does not end")
                results.append(rx.recv())
            except (EOFError, OSError) as e:
                p.join()
                code = -(p.exitcode or 0)
                endless = str(e) == "does not end"
                if pos[3 * s] < 0 or not (endless or code in CRASHES):
                    lost.append(f"worker {s} ended without a result ({p.exitcode})")
                    continue
                results.append(
                    dict(
                        obs={}, evaluations=0, keys=[], samples=[], inconclusive=[], timing={},
                        violations=[
                            {
                                "monitor": mod.MONITORS[int(pos[3 * s])].name,
                                "index": int(pos[3 * s + 1]),
                                "label": "does not end" if endless else "crashes the interpreter",
                                "message": f"worker ended by signal {code}",
                                "data": {},
                                "spec": None,
                            }
                        ],
                    )
                )
            p.join()

    obs = collections.Counter()
    keys, samples, violations, inconclusive = set(), [], [], list(lost)
    evaluations, timing = 0, collections.Counter()
    for r in results:
        obs.update(r["obs"])
        keys.update(r["keys"])
        samples += r["samples"]
        violations += r["violations"]
        inconclusive += r["inconclusive"]
        evaluations += r["evaluations"]
        timing.update(r["timing"])
    listed = known_findings(prop)
    new, old = [], collections.OrderedDict()
    for v in violations:
        key = f"{v['monitor']}/{v['label']}".replace(" ", "_")
        hit = next(((k, t) for k, t in listed if k == key), None)
        if hit:
            old[hit[0]] = hit[1]
        else:
            new.append(v)
    for k, t in old.items():
        print(f"KNOWN-FINDING: property={prop} {t}")

    missing = []
    for mon in mod.MONITORS:
        need = {f"cases: {mon.name}": 1, **mon.need}
        for kind, least in need.items():
            if obs[kind] < least:
                missing.append(f"{mon.name}: saw {obs[kind]} of at least {least} '{kind}'")
    rule = getattr(mod, "RULE", "") or (mod.__doc__ or "").strip()
    per_mon = {}
    for s in samples:
        per_mon.setdefault(s["monitor"], s)
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(keys),
            "rule": rule,
            "samples": list(per_mon.values())[:8] or samples[:4],
            "observed": dict(sorted(obs.items())),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as fp:
        json.dump(evidence, fp, indent=1)

    if a.v:
        for k, v in sorted(obs.items()):
            print(f"   {v:9d} {k}")
        for k, v in timing.items():
            print(f"   {v:9.2f} s {k}")
    if new:
        seen = set()
        n = 0
        for v in new:
            k = (v["monitor"], v["label"])
            if k in seen or n >= 5:
                continue
            seen.add(k)
            n += 1
            path = os.path.join(VERIF, "evidence", f"{prop}.replay.{n}.json")
            with open(path, "w") as fp:
                json.dump({"property": prop, "tier": tier, "seed": seed, **v}, fp, indent=1)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  {v['monitor']}[{v['index']}] {v['label']}: {v['message'][-1200:]}")
        return 1
    if inconclusive or missing:
        print(f"INCONCLUSIVE property={prop}")
        for m in (inconclusive + missing)[:20]:
            print("  " + m)
        return 3
    print(
        f"held: property={prop} tier={tier} cases={evaluations} distinct={len(keys)} "
        f"oracle evaluations={obs['oracle evaluations']} wall={evidence['wall_s']} s"
    )
    return 0
