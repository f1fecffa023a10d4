"""Development aid: sample source mutants, keep those the tests miss, run the checks.

mutate.py OUT N SEED WORKERS [file ...] -- results as JSON lines in OUT. Works on copies
under /tmp only. Survivors of tests and checks show where the monitors are blind.
"""
import ast
import concurrent.futures as cf
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import threading
import time

SRC = "/repo/src/pystrata"
PY = "/opt/venv/bin/python"
VERIF = os.environ.get("MUT_VERIF", "/verif")
SKIP = {"_parse_curves", "_parse_soil_profile", "_parse_motion", "_parse_input_loc", "_parse_run_control", "_parse_output_accel", "_parse_output_stress", "_parse_output_spectra", "load_shake_inp", "fetch_ncm_profile", "__repr__"}
CLASS = {
    "propagation": [
        (("QuarterWave", "my_trapz"), ["C10", "C11", "C03"]),
        (("Frequency",), ["C08", "C06", "C07", "C09", "C03", "C26"]),
        (("Equivalent",), ["C05", "C06", "C07", "C09", "C26", "C08"]),
        (("_python",), ["C03"]),
        (("",), ["C01", "C02", "C03", "C04", "C27", "C09", "C05"]),
    ],
    "site": [
        (("NonlinearCurve", "ModulusReductionCurve", "DampingCurve"), ["C17", "C21", "C18", "C20", "C40"]),
        (("known_published", "_load_published"), ["C21"]),
        (("KishidaSoilType", "WangSoilType"), ["C19", "C20", "C21"]),
        (("Hyperbolic", "Darendeli", "Menq", "Wang", "Alemu", "Rollins", "Kishida", "FixedValues", "to_decimal"), ["C19", "C21", "C32", "C40"]),
        (("SoilType.",), ["C18", "C20", "C19", "C21", "C17", "C12"]),
        (("IterativeValue",), ["C18", "C06", "C05", "C20"]),
        (("Layer",), ["C18", "C04", "C12", "C20", "C15", "C05", "C14", "C27", "C08", "C16"]),
        (("Location",), ["C13", "C12", "C01"]),
        (("Profile.plot",), ["C39"]),
        (("Profile",), ["C12", "C13", "C14", "C15", "C16", "C20", "C10", "C27", "C09"]),
        (("",), ["C19", "C21", "C17"]),
    ],
    "motion": [
        (("load_",), ["C25"]),
        (("Rvt",), ["C26"]),
        (("",), ["C22", "C23", "C24", "C26", "C27"]),
    ],
    "output": [(("plot",), ["C39"]), (("Collection", "append_arrays", "Output."), ["C28", "C29", "C27"]), (("",), ["C27", "C28", "C29", "C39"])],
    "variation": [
        (("Thickness", "HalfSpace", "LayerThick"), ["C30", "C33"]),
        (("Velocity", "Vel"), ["C31", "C33"]),
        (("TruncatedNorm",), ["C32", "C31", "C33"]),
        (("iter_varied",), ["C33", "C30", "C31", "C32"]),
        (("",), ["C32", "C33"]),
    ],
    "generic": [(("",), ["C37"])],
    "logic_tree": [(("",), ["C34", "C35"])],
    "tools": [
        (("calc_mean", ), ["C37"]),
        (("atten", "adjust"), ["C36"]),
        (("",), ["C38", "C37", "C36"]),
    ],
}


def checks_for(mod, qual):
    for keys, ids in CLASS[mod]:
        if any(k in qual + "." for k in keys):
            return ids
    return []


class Sites(ast.NodeVisitor):
    """All (qualified name, description, mutator) of a tree."""

    def __init__(self):
        self.stack, self.out = [], []

    def qual(self):
        return ".".join(self.stack)

    def add(self, node, desc, **repl):
        self.out.append((self.qual(), node.lineno, desc, node, repl))

    def scoped(self, node):
        if node.name in SKIP:
            return
        self.stack.append(node.name)
        for n in node.body:
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
                continue
            self.visit(n)
        if isinstance(node, ast.FunctionDef):
            for d in node.args.defaults + node.args.kw_defaults:
                if d is not None:
                    self.visit(d)
        self.stack.pop()

    visit_FunctionDef = visit_ClassDef = scoped

    def visit_AnnAssign(self, node):
        if node.value is not None:
            self.visit(node.value)

    def visit_Raise(self, node):
        self.add(node, "drop raise", __stmt__=ast.Pass())

    def visit_JoinedStr(self, node):
        pass

    def visit_Compare(self, node):
        swap = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
                ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
        for k, op in enumerate(node.ops):
            for new in swap.get(type(op), []):
                ops = list(node.ops)
                ops[k] = new()
                self.add(node, f"{type(op).__name__}->{new.__name__}", ops=ops)
        self.generic_visit(node)

    def visit_BinOp(self, node):
        swap = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult, ast.FloorDiv: ast.Div, ast.Mod: ast.Mult, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd}
        if type(node.op) in swap:
            self.add(node, f"{type(node.op).__name__}->{swap[type(node.op)].__name__}", op=swap[type(node.op)]())
        if isinstance(node.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
            self.add(node, "keep left", __expr__=node.left)
        self.generic_visit(node)

    def visit_BoolOp(self, node):
        self.add(node, "and<->or", op=ast.Or() if isinstance(node.op, ast.And) else ast.And())
        for k in range(len(node.values)):
            v = node.values[:k] + node.values[k + 1 :]
            self.add(node, f"drop operand {k}", values=v) if len(v) > 1 else self.add(node, f"drop operand {k}", __expr__=v[0])
        self.generic_visit(node)

    def visit_UnaryOp(self, node):
        self.add(node, "drop unary", __expr__=node.operand)
        self.generic_visit(node)

    def visit_Constant(self, node):
        v = node.value
        if isinstance(v, bool):
            self.add(node, f"{v}->{not v}", value=not v)
        elif isinstance(v, int):
            self.add(node, f"{v}->{v + 1}", value=v + 1)
            if v > 0:
                self.add(node, f"{v}->{v - 1}", value=v - 1)
        elif isinstance(v, float):
            self.add(node, f"{v}->{v * 1.05 if v else 0.1}", value=v * 1.05 if v else 0.1)

    def visit_If(self, node):
        self.add(node, "if True", test=ast.Constant(True))
        self.add(node, "if False", test=ast.Constant(False))
        self.generic_visit(node)

    def visit_IfExp(self, node):
        self.add(node, "always body", __expr__=node.body)
        self.add(node, "always orelse", __expr__=node.orelse)
        self.generic_visit(node)

    def stmt(self, node):
        self.add(node, "drop statement", __stmt__=ast.Pass())
        self.generic_visit(node)

    visit_AugAssign = visit_Expr = stmt

    def visit_Assign(self, node):
        if isinstance(node.targets[0], (ast.Attribute, ast.Subscript)):
            self.add(node, "drop assignment", __stmt__=ast.Pass())
        self.generic_visit(node)

    def visit_Subscript(self, node):
        sl = node.slice
        def const(n):
            if isinstance(n, ast.Constant): return n.value
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and isinstance(n.operand, ast.Constant): return -n.operand.value
            return None
        c = const(sl)
        if isinstance(node.ctx, ast.Load):
            if c == 0: self.add(node, "[0]->[-1]", slice=ast.Constant(-1))
            elif c == -1: self.add(node, "[-1]->[0]", slice=ast.Constant(0))
            if isinstance(sl, ast.Slice):
                self.add(node, "slice->all", __expr__=node.value)
        self.generic_visit(node)

    def visit_Attribute(self, node):
        pairs = {"initial_shear_vel": ["shear_vel"], "shear_vel": ["initial_shear_vel"], "damping_min": ["damping"], "damping": ["damping_min"],
                 "depth_mid": ["depth", "depth_base"], "depth": ["depth_mid"], "depth_base": ["depth_mid"], "strain": ["strain_max"], "strain_max": ["strain"],
                 "shear_mod": ["initial_shear_mod"], "initial_shear_mod": ["shear_mod"], "unit_wt": ["density"], "accels": ["times"], "angular_freqs": ["freqs"],
                 "nanmean": ["mean"], "nanstd": ["std"], "mean": ["median"], "median": ["mean"], "floor": ["ceil"], "ceil": ["floor"], "cumsum": ["asarray"], "ln_std": ["rho_0"], "real": ["imag"]}
        if isinstance(node.ctx, ast.Load):
            for a in pairs.get(node.attr, []):
                self.add(node, f".{node.attr}->.{a}", attr=a)
        self.generic_visit(node)

    def visit_Break(self, node):
        self.add(node, "drop break", __stmt__=ast.Pass())

    def visit_Continue(self, node):
        self.add(node, "drop continue", __stmt__=ast.Pass())

    def visit_Call(self, node):
        name = node.func.attr if isinstance(node.func, ast.Attribute) else getattr(node.func, "id", "")
        swap = {"min": "max", "max": "min", "minimum": "maximum", "maximum": "minimum", "log": "log10", "log10": "log", "any": "all", "all": "any", "argmin": "argmax"}
        if name in swap:
            f = copy.deepcopy(node.func)
            if isinstance(f, ast.Attribute):
                f.attr = swap[name]
            else:
                f.id = swap[name]
            self.add(node, f"{name}->{swap[name]}", func=f)
        if name in ("abs", "sorted", "copy", "deepcopy", "asarray", "array", "float", "clip", "sort", "list", "squeeze", "reversed", "lower", "strip") and len(node.args) >= 1:
            self.add(node, f"drop {name}()", __expr__=node.args[0])
        if name == "copy" and not node.args and isinstance(node.func, ast.Attribute):
            self.add(node, "drop .copy()", __expr__=node.func.value)
        if len(node.args) == 2 and not any(isinstance(a, ast.Starred) for a in node.args):
            self.add(node, "swap arguments", args=[node.args[1], node.args[0]])
        for k in range(len(node.keywords)):
            self.add(node, f"drop keyword {node.keywords[k].arg}", keywords=node.keywords[:k] + node.keywords[k + 1 :])
        self.generic_visit(node)


def sites(path):
    with open(path) as fp:
        tree = ast.parse(fp.read())
    v = Sites()
    v.visit(tree)
    return tree, v.out


def mutant(path, k):
    tree, out = sites(path)
    qual, line, desc, node, repl = out[k]

    class T(ast.NodeTransformer):
        def visit(self, n):
            if n is node:
                if "__expr__" in repl or "__stmt__" in repl:
                    return ast.copy_location(repl.get("__expr__") or repl["__stmt__"], n)
                for a, b in repl.items():
                    setattr(n, a, b)
                return n
            return self.generic_visit(n)

    new = ast.fix_missing_locations(T().visit(tree))
    return qual, line, desc, ast.unparse(new)


lock = threading.Lock()


def job(task):
    mod, k, out = task
    path = os.path.join(SRC, mod + ".py")
    try:
        qual, line, desc, text = mutant(path, k)
        compile(text, "m", "exec")
    except Exception as e:
        return
    tag = f"{mod}-{k}"
    d = f"/tmp/mut2/{tag}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/repo")
    rec = {"mod": mod, "k": k, "qual": qual, "line": line, "desc": desc, "src": open(path).read().splitlines()[line - 1].strip()}
    t0 = time.time()
    try:
        for sub in ("src", "tests", "pyproject.toml"):
            s = os.path.join("/repo", sub)
            (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, os.path.join(d, "repo", sub))
        shutil.rmtree(d + "/repo/src/pystrata/__pycache__", ignore_errors=True)
        with open(os.path.join(d, "repo/src/pystrata", mod + ".py"), "w") as fp:
            fp.write(text)
        env = {**os.environ, "PYTHONPATH": d + "/repo/src", "NUMBA_CACHE_DIR": d + "/nb", "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MPLBACKEND": "Agg"}
        rec["caught"] = None
        rec["ran"] = {}
        for c in checks_for(mod, qual):
            try:
                r = subprocess.run([PY, os.path.join(VERIF, "check.py"), c, "--jobs", "2"], env={**os.environ, "PVMON_REPO": d + "/repo", "VERIF_SEED": "1"}, capture_output=True, text=True, timeout=400)
                rec["ran"][c] = r.returncode
                if r.returncode == 1:
                    rec["caught"] = c
                    rec["how"] = r.stdout[-300:]
                    break
                if r.returncode != 0:
                    rec["caught"] = "broken " + c
                    break
            except subprocess.TimeoutExpired:
                rec["ran"][c] = "timeout"
                rec["caught"] = "timeout"
                break
        if rec["caught"] is None:
            try:
                r = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests", "--ignore", "tests/notebooks_test.py"], cwd=d + "/repo", env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300)
                rec["tests"] = r.returncode
            except subprocess.TimeoutExpired:
                rec["tests"] = "timeout"
        rec["secs"] = round(time.time() - t0)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    with lock, open(out, "a") as fp:
        fp.write(json.dumps(rec) + "\n")


def main():
    out, n, seed, workers = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
    files = sys.argv[5:] or sorted(CLASS)
    allsites = []
    for mod in files:
        _, s = sites(os.path.join(SRC, mod + ".py"))
        allsites += [(mod, k, out) for k in range(len(s)) if s[k][0]]
    print(len(allsites), "sites")
    done = set()
    if os.path.exists(out):
        done = {(r["mod"], r["k"]) for r in map(json.loads, open(out))}
    random.Random(seed).shuffle(allsites)
    todo = [t for t in allsites if (t[0], t[1]) not in done][:n]
    with cf.ThreadPoolExecutor(workers) as ex:
        list(ex.map(job, todo))


main()
