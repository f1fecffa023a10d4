"""Batches of analyses (linear, quarter-wavelength, equivalent-linear and
frequency-dependent, on random profiles and motions) are run twice: in this process
with the just-in-time compiler, and in a fresh process in which `numba` cannot be
imported. Every returned array must agree to rounding, and both must fail alike.
Non-trivial: an analysis that completed in both worlds."""
import os
import pickle
import subprocess
import sys

import numpy as np

from .. import core, portable
from ..core import Monitor
from ..wavework import warm  # noqa: F401

ASSUMPTIONS = [
    "numba is hidden from pystrata only: its dependency pykooh needs it in this environment",
    "iterative analyses use a fixed number of iterations, so that rounding cannot change it",
]


def agree(ctx, rng, i):
    n = 25 if ctx.tier == "quick" else 100
    seed = [ctx.seed, 3, i]
    path = os.path.join(ctx.scratch, f"portable{i}.pkl")
    ctx.case(seed=seed, analyses=[k for k, _ in portable.analyses(seed, 5)], count=n)
    r = subprocess.run(
        [sys.executable, "-m", "pvmon.portable", ",".join(map(str, seed)), str(n), path],
        cwd=core.VERIF, capture_output=True, text=True, timeout=100,
    )
    ctx.true("DONE" in r.stdout, "works without numba", r.stdout[-500:] + r.stderr[-1500:])
    with open(path, "rb") as fp:
        has, other = pickle.load(fp)
    os.remove(path)
    if has:
        raise RuntimeError("numba was not hidden")
    mine = portable.batch(seed, n)
    for j, ((kind, ok1, a), (_, ok2, b)) in enumerate(zip(mine, other)):
        ctx.equal(ok2.split(":")[0], ok1.split(":")[0], f"{kind}: outcome without numba", detail=[ok1, ok2], analysis=j)
        if ok1 != "ok":
            ctx.see(f"both refused ({kind})")
            continue
        ctx.equal(sorted(b), sorted(a), f"{kind}: quantities")
        for k in a:
            big = np.abs(a[k])
            big = big[np.isfinite(big)].max(initial=0)
            x, y = a[k], b[k]
            ctx.true(x.shape == y.shape, f"{kind}: shape of {k.split()[0]}")
            fin = np.isfinite(x)
            ctx.same(np.isfinite(y), fin, f"{kind}: finiteness of {k.split()[0]}", analysis=j, quantity=k)
            # A node (zero) of the motion amplifies rounding: judge per quantity
            atol = np.full(x.shape, 1e-10 * big)
            if k.split()[0] in ("strain", "stress") and x.shape == a["freqs"].shape:
                # A difference of waves that are nearly equal at low frequencies
                atol += 1e-11 * np.abs(np.where(fin, x, 0)) / np.maximum(np.abs(a["freqs"]), 1e-9)
            ctx.close(y[fin], x[fin], f"{kind}: {k.split()[0]}", 1e-7, atol[fin], analysis=j, quantity=k)
            ctx.see(f"arrays compared ({kind})")
        ctx.nontrivial(seed, j)


def installed(ctx, rng, i):
    """With the compiler present the package uses it and still imports."""
    code = (
        "import pystrata, pystrata.propagation as p;"
        "print('OK', sorted(x for x in pystrata.__all__ if not hasattr(pystrata, x)))"
    )
    r = subprocess.run([sys.executable, "-c", code], capture_output=True, text=True, timeout=100)
    ctx.case(code=code)
    ctx.true("OK []" in r.stdout, "imports", r.stdout + r.stderr[-1500:])


MONITORS = [
    Monitor("agree", agree, 6, 48, {
        "arrays compared (LE)": 300, "arrays compared (QWL)": 20,
        "arrays compared (EQL)": 100, "arrays compared (FDM)": 100}),
    Monitor("installed", installed, 1, 1),
]
