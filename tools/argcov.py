"""Development aid: what values each parameter of the package's functions received
from the quick checks (types, ranges, sizes). argcov.py [C01 ...]"""
import collections
import concurrent.futures as cf
import inspect
import json
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def child(prop, out):
    sys.path.insert(0, HERE)
    import numpy as np

    rows, calls = {}, collections.Counter()

    def note(key, v):
        r = rows.setdefault(key, {"types": {}, "lo": None, "hi": None, "tiny": None, "sizes": None, "values": {}})
        t = type(v).__name__
        if isinstance(v, np.ndarray):
            t = f"{v.dtype}[{v.ndim}]"
        r["types"][t] = r["types"].get(t, 0) + 1
        try:
            if isinstance(v, (str, bool)) or v is None:
                if len(r["values"]) < 25:
                    r["values"][str(v)[:30]] = 1
                return
            a = np.abs(np.asarray(v, dtype=complex)) if np.iscomplexobj(v) else np.asarray(v, dtype=float)
        except (TypeError, ValueError):
            if hasattr(v, "__len__"):
                n = len(v)
                r["sizes"] = [n, n] if r["sizes"] is None else [min(n, r["sizes"][0]), max(n, r["sizes"][1])]
            return
        if a.ndim:
            n = a.size
            r["sizes"] = [n, n] if r["sizes"] is None else [min(n, r["sizes"][0]), max(n, r["sizes"][1])]
        a = a[np.isfinite(a)]
        if not a.size:
            return
        lo, hi = float(a.min()), float(a.max())
        nz = np.abs(a[a != 0])
        r["lo"] = lo if r["lo"] is None else min(lo, r["lo"])
        r["hi"] = hi if r["hi"] is None else max(hi, r["hi"])
        if nz.size:
            r["tiny"] = float(nz.min()) if r["tiny"] is None else min(float(nz.min()), r["tiny"])

    def prof(frame, event, arg):
        if event != "call":
            return
        c = frame.f_code
        if "/src/pystrata/" not in c.co_filename:
            return
        calls[c] += 1
        n = calls[c]
        if n > 2000 and n % 37:
            return
        for name in c.co_varnames[: c.co_argcount + c.co_kwonlyargcount]:
            if name in ("self", "cls"):
                continue
            note(f"{os.path.basename(c.co_filename)[:-3]}.{c.co_qualname}:{name}", frame.f_locals[name])

    from pvmon import core

    sys.setprofile(prof)
    core.run_shard(prop, "quick", 1, 0, 1)
    sys.setprofile(None)
    json.dump({"rows": rows}, open(out, "w"))


def main(props):
    tmp = tempfile.mkdtemp(prefix="argcov.")

    def run(p):
        d = os.path.join(tmp, p)
        os.makedirs(os.path.join(d, "work"))
        env = dict(
            os.environ, PVMON_SCRATCH=d + "/work", PVMON_REPO="/repo", PYTHONPATH="/repo/src",
            MPLBACKEND="Agg", NUMBA_CACHE_DIR=d, MPLCONFIGDIR=d, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
        )
        subprocess.run([PY, __file__, "--child", p, d + "/args"], env=env, cwd=HERE, check=False, stdout=subprocess.DEVNULL)
        try:
            return p, json.load(open(d + "/args"))["rows"]
        except OSError:
            return p, {}

    with cf.ThreadPoolExecutor(4) as ex:
        for p, rows in ex.map(run, props):
            for k, r in sorted(rows.items()):
                rng = "" if r["lo"] is None else f" {r['lo']:.3g}..{r['hi']:.3g} (smallest {r['tiny']:.2g})" if r["tiny"] else f" {r['lo']:.3g}..{r['hi']:.3g}"
                size = f" n={r['sizes'][0]}..{r['sizes'][1]}" if r["sizes"] else ""
                types = ",".join(f"{t}:{n}" for t, n in sorted(r["types"].items(), key=lambda x: -x[1])[:7])
                print(f"{k} | {p} |{rng}{size} | {types} | {','.join(r['values'])}", flush=True)


if __name__ == "__main__":
    if sys.argv[1:2] == ["--child"]:
        child(sys.argv[2], sys.argv[3])
    else:
        main(sys.argv[1:] or [f"C{k:02d}" for k in range(1, 41)])
