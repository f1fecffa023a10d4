"""Development aid: lines of the package that no quick check executes.

Run as: check-like environment is set up here; linecov.py [C01 ...]
"""
import collections
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def child(prop, out):
    sys.path.insert(0, HERE)
    seen = set()
    mon = sys.monitoring
    mon.use_tool_id(3, "linecov")

    def line(code, no):
        if "/src/pystrata/" in code.co_filename:
            seen.add((os.path.basename(code.co_filename), no))
        return mon.DISABLE

    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.LINE)
    from pvmon import core

    core.run_shard(prop, "quick", 1, 0, 1)
    with open(out, "a") as fp:
        for f, n in sorted(seen):
            fp.write(f"{f} {n} {prop}\n")


def main(props):
    import concurrent.futures as cf

    tmp = tempfile.mkdtemp(prefix="linecov.")

    def run(p):
        d = os.path.join(tmp, p)
        os.makedirs(os.path.join(d, "work"))
        env = dict(
            os.environ, PVMON_SCRATCH=d + "/work", PVMON_REPO="/repo", PYTHONPATH="/repo/src",
            MPLBACKEND="Agg", NUMBA_CACHE_DIR=d, MPLCONFIGDIR=d, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
        )
        subprocess.run([PY, __file__, "--child", p, d + "/lines"], env=env, cwd=HERE, check=False)
        return [x.split() for x in open(d + "/lines")]

    hit = collections.defaultdict(set)
    with cf.ThreadPoolExecutor(6) as ex:
        for rows in ex.map(run, props):
            for f, n, p in rows:
                hit[f].add(int(n))
    import ast

    for f in sorted(os.listdir("/repo/src/pystrata")):
        if not f.endswith(".py"):
            continue
        path = "/repo/src/pystrata/" + f
        src = open(path).read().splitlines()
        code = compile("\n".join(src), path, "exec")
        lines = set()
        todo = [code]
        while todo:
            c = todo.pop()
            lines |= {x[2] for x in c.co_lines() if x[2]}
            todo += [k for k in c.co_consts if hasattr(k, "co_lines")]
        miss = sorted(lines - hit[f])
        print(f"== {f}: {len(lines) - len(miss)} of {len(lines)}")
        for n in miss:
            print(f"{n:5d} {src[n - 1]}")
    subprocess.run(["rm", "-rf", tmp])


if __name__ == "__main__":
    if sys.argv[1:2] == ["--child"]:
        child(sys.argv[2], sys.argv[3])
    else:
        main(sys.argv[1:] or [f"C{i:02d}" for i in range(1, 39)])
