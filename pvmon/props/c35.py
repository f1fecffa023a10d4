"""Random trees written as lists, JSON files and compressed JSON files (text paths and Path
objects), with and without optional fields, parameters of any JSON kind and non-ASCII text;
lookups of every value and of absent names and values; exported arrays; and the
approximations with 2 to 10 branches against the published table. Non-trivial: each distinct
tree."""
import gzip
import json
import math
import pathlib

import numpy as np
from scipy import stats

from .. import gen
from ..core import Monitor
from .c34 import build, compare, expected, hashed, lib, tree_spec

# Miller and Rice (1983), Table 3: lower half of the fractions and weights
TABLE = {
    2: [(0.166667, 0.5)],
    3: [(0.084669, 0.247614), (0.5, 0.504771)],
    4: [(0.051621, 0.150361), (0.312208, 0.349639)],
    5: [(0.034893, 0.10108), (0.211702, 0.24429), (0.5, 0.30926)],
    6: [(0.025219, 0.072713), (0.15282, 0.178624), (0.371852, 0.248663)],
    7: [(0.019106, 0.054866), (0.115498, 0.135893), (0.285336, 0.198097), (0.5, 0.222288)],
    8: [(0.014992, 0.042899), (0.090374, 0.106727), (0.22524, 0.1597), (0.40308, 0.190674)],
    9: [(0.012086, 0.034479), (0.072658, 0.08599), (0.18209, 0.130813), (0.330161, 0.162023), (0.5, 0.173391)],
    10: [(0.009957, 0.028328), (0.059697, 0.07074), (0.150157, 0.108826), (0.274659, 0.138009), (0.422152, 0.154097)],
}


def with_params(rng, nodes):
    for n in nodes:
        for a in n["alts"]:
            if rng.random() < 0.4:
                a["params"] = {
                    "mean": float(rng.normal()), "path": "é/x.csv", "layers": [1, 2.5, "c"], "flag": True, "none": None, "sub": {"k": 1},
                }
    return nodes


def one_each(rng):
    while True:
        nodes = tree_spec(rng, most=5)
        want, _ = expected(nodes)
        if all(c == 1 for c in want.values()):
            return with_params(rng, nodes)


def check(ctx, tree, nodes):
    ctx.equal([n.name for n in tree.nodes], [n["name"] for n in nodes], "nodes")
    for node, want in zip(tree.nodes, nodes):
        ctx.equal(len(node), len(want["alts"]), "number of alternatives")
        ctx.equal([hashed(v) for v in node.options], [hashed(a["value"]) for a in want["alts"]], "options")
        for k, a in enumerate(want["alts"]):
            got = node[k]
            ctx.equal((got.value, type(got.value)), (a["value"], type(a["value"])), "value")
            ctx.equal(got.weight, a.get("weight", 1), "weight")
            for key in ("params", "requires", "excludes"):
                ctx.equal(getattr(got, key), a.get(key, {}), key)
            ctx.see("alternatives")
    compare(ctx, tree, nodes)
    # Branches show the values and parameters of the alternatives
    _, info = expected(nodes)
    for b in tree:
        vals = b.as_dict()
        combo = info[tuple(hashed(v) for v in vals.values())][1]
        ctx.equal([r.name for r in b], [n["name"] for n in nodes], "realizations of a branch")
        for n, a in zip(nodes, combo):
            name = n["name"]
            ctx.true(name in b and "no such node" not in b, "membership of a node")
            ctx.equal((b.value(name), b[name].value, b[name].name, vals[name]), (a["value"], a["value"], name, a["value"]), "value of a node")
            ctx.equal(b[name].weight, a.get("weight", 1), "weight of a node")
            ctx.equal(b[name].params, a.get("params", {}), "parameters of a node")
            ctx.see("branch values")
        ctx.raises(lambda b=b: b["no such node"], "absent node of a branch")


def loading(ctx, rng, i):
    m = lib()
    nodes = one_each(rng)
    text = json.dumps(nodes, ensure_ascii=bool(i % 2), indent=None if i % 3 else 2)
    ctx.case(nodes=nodes)
    path = pathlib.Path(ctx.scratch) / str(rng.choice(["tree.json", "tree.json", "tree", "tree.gz.json", "gz"]))
    path.write_text(text, encoding="utf-8")
    packed = pathlib.Path(ctx.scratch) / str(rng.choice(["tree.json.gz", "tree.gz", "site.v2.gz", "a tree.jsn.gz"]))
    with gzip.open(packed, "wt", encoding="utf-8") as fp:
        fp.write(text)
    plain = json.loads(text)
    check(ctx, build(nodes), nodes)
    check(ctx, m.LogicTree.from_list(plain), nodes)
    ctx.equal(plain, json.loads(text), "list after loading")
    for p in (path, packed):
        check(ctx, m.LogicTree.from_json(str(p) if i % 2 else p), nodes)
        ctx.see("files")
    ctx.raises(lambda: m.LogicTree.from_json(path.with_name("absent.json")), "absent file", OSError)
    ctx.nontrivial(text)


def lookups(ctx, rng, i):
    m = lib()
    nodes = one_each(rng)
    tree = build(nodes)
    ctx.case(nodes=nodes)
    for n in nodes:
        node = tree[n["name"]]
        ctx.equal(node.name, n["name"], "node by name")
        first = {}
        for k, a in enumerate(n["alts"]):
            first.setdefault(hashed(a["value"]), k)
        for a in n["alts"]:
            got = node.by_value(a["value"])
            ctx.true(got is node[first[hashed(a["value"])]], "alternative by value", data=a["value"])
            if isinstance(a["value"], float):
                ctx.true(node.by_value(a["value"] * (1 + 1e-13)) is got, "alternative by a rounded value", data=a["value"])
                ctx.true(node.by_value(np.float64(a["value"])) is got, "alternative by a numpy value")
                if a["value"].is_integer():
                    ctx.true(node.by_value(int(a["value"])) is got, "decimal by a whole number", data=a["value"])
            if type(a["value"]) is int:
                ctx.true(node.by_value(float(a["value"])) is got, "whole number by a decimal")
                ctx.true(node.by_value(np.int64(a["value"])) is got, "whole number by a numpy value")
            ctx.see("lookups")
        for absent in ("absent", -999, 1234.5, ["absent"], None):
            ctx.true(node.by_value(absent) is None, "absent value", data=absent)
            ctx.see("absent lookups")
        vals = [a["value"] for a in n["alts"]]
        kinds = {type(v) for v in vals}
        if len(kinds) == 1 and kinds <= {str, int, float} and len(set(vals)) == len(vals):
            name = "w" if i % 2 else ""
            arr = node.to_xarray("dim", name) if i % 2 else node.to_xarray("dim")
            ctx.equal((arr.dims, arr.name, arr.shape), (("dim",), name, (len(vals),)), "labelled array")
            ctx.equal(list(arr["dim"].values), vals, "labels")
            for v, a in zip(vals, n["alts"]):
                ctx.equal(float(arr.sel(dim=v)), float(a.get("weight", 1)), "weight by label")
                ctx.see("labelled weights")
    for absent in ("absent", "", 0, None):
        ctx.true(tree[absent] is None, "absent node", data=absent)
    ctx.nontrivial(str(nodes))


def approximation(ctx, rng, i):
    m = lib()
    ctx.case(approximation=i)
    last = 0
    for n in range(2, 11):
        node = m.Node.from_miller_rice("x", n)
        f = np.array([a.value for a in node.alts], dtype=float)
        w = np.array([a.weight for a in node.alts], dtype=float)
        ctx.equal((node.name, f.size), ("x", n), "approximation")
        ctx.true(np.all(np.diff(f) > 0) and f[0] > 0 and f[-1] < 1 and np.all(w > 0), "fractions")
        ctx.close(f + f[::-1], np.ones(n), "symmetric fractions", 1e-12)
        ctx.same(w, w[::-1], "symmetric weights")
        ctx.close(w.sum(), 1, "sum of the weights", 2e-6)
        half = TABLE[n]
        ctx.close(f[: len(half)], [x for x, _ in half], "published fractions", 1e-9)
        ctx.close(w[: len(half)], [x for _, x in half], "published weights", 1e-9)
        mean, sd = float(rng.normal()), float(rng.uniform(0.1, 3))
        x = stats.norm.ppf(f, mean, sd)
        ctx.close(np.sum(w * x), mean, "mean", 1e-5, 1e-5 * sd)
        var = np.sum(w * (x - mean) ** 2) / sd**2
        ctx.true(0.93 < var < 1 and (n == 3 or var > last), "variance", f"{var}")
        ctx.close(np.sum(w * (x - mean) ** 3), 0, "skewness", 0, 1e-4 * sd**3)
        last = var
        ctx.see("approximations")
        # As a node of a tree
        got = [(b.value("x"), float(b.weight)) for b in m.LogicTree([node])]
        ctx.equal(got, list(zip(f.tolist(), w.tolist())), "branches of the approximation")
    for n in (0, 1, 11, -1):
        ctx.raises(lambda n=n: m.Node.from_miller_rice("x", n), "number of branches without an approximation", data=n)
    ctx.nontrivial(i)


MONITORS = [
    Monitor("loading", loading, 120, 3000, {"files": 200, "alternatives": 2000, "branch values": 4000}),
    Monitor("lookups", lookups, 200, 6000, {"lookups": 800, "absent lookups": 1500, "labelled weights": 200}),
    Monitor("approximation", approximation, 6, 60, {"approximations": 45}),
]
