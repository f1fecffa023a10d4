"""Random logic trees of 1 to 6 nodes with text, integer, decimal, list and mixed values, zero
weights, single and combined requirements and exclusions (single values and lists of
values), repeated values with exclusive conditions, unreachable alternatives and empty
results. The recorded branches are compared with a brute-force enumeration of the
specification, as a multiset of values with weights. Non-trivial: each distinct tree."""
import itertools
import math
from collections import Counter

from .. import gen
from ..core import Monitor


def lib():
    import pystrata.logic_tree as m

    gen.ps()
    return m


def hashed(v):
    return tuple(v) if isinstance(v, list) else v


def values_for(rng, n, close=False):
    kind = str(rng.choice(["text", "int", "float", "mixed", "list"]))
    if kind == "text":
        return [f"v{k}" for k in range(n)] if rng.random() < 0.5 else [["A", "B b", "", "Ω", "1"][k] for k in range(n)]
    if kind == "int":
        if rng.random() < 0.3:
            return [1000 + int(x) for x in rng.permutation(n)]
        return [int(x) for x in rng.permutation(50)[:n] - 20]
    if kind == "float":
        # Site attenuations as well as velocities
        scale = float(rng.choice([1.0, 1.0, 1e-4, 1e4]))
        if close and rng.random() < 0.3:
            # Different all the same
            x = float(rng.choice([rng.uniform(0.1, 5), 10 ** rng.uniform(-12, -6)]))
            return [x * (1 + 1e-13 * float(k)) if x > 0.1 else x * float(k + 1) for k in rng.permutation(n)]
        if rng.random() < 0.3:
            # Values next to each other are different values
            x, gap = float(rng.uniform(0.1, 5)), float(rng.choice([1e-3, 3e-3, 1e-2]))
            return [float(f"{scale * x * (1 + gap) ** float(k):.7g}") for k in rng.permutation(n)]
        return [float(f"{scale * (float(x) * 0.1 + 0.013):.4g}") for x in rng.permutation(60)[:n] - 30]
    if kind == "mixed":
        return [["text", 3, 0.25, -7, "3"][k] for k in rng.permutation(5)[:n]]
    some = [[f"a{k}", k] if k % 2 else [float(k), 1.5, "z"] for k in range(n)]
    if rng.random() < 0.5:
        some[int(rng.integers(n))] = [("only", 7.5, 900)[int(rng.integers(3))]]
    return some


def ref_for(rng, value, others):
    """A condition that the value meets: the value, or a list with it."""
    if isinstance(value, list) or rng.random() < 0.4:
        out = [value] + [o for o in others if rng.random() < 0.4 and o != value]
        return [out[k] for k in rng.permutation(len(out))]
    if isinstance(value, float) and rng.random() < 0.2:
        return value * (1 + 1e-12)
    return value


def tree_spec(rng, conditions=True, most=6):
    """Nodes of a tree: name, and alternatives as dictionaries."""
    n = int(rng.integers(1, most))
    names = [["soil", "depth to rock", "kappa", "x", "Vs", "ß"][k] for k in rng.permutation(6)[:n]]
    nodes = []
    for name in names:
        vals = values_for(rng, int(rng.integers(1, 5)), not conditions)
        w = rng.dirichlet([1.5] * len(vals)) if rng.random() < 0.6 else rng.uniform(0.05, 2, len(vals))
        alts = [{"value": v, "weight": float(x)} for v, x in zip(vals, w)]
        if rng.random() < 0.25:
            alts[int(rng.integers(len(alts)))]["weight"] = 0.0
        elif rng.random() < 0.15:
            # Rare, not impossible
            alts[int(rng.integers(len(alts)))]["weight"] = float(10 ** rng.uniform(-15, -3))
        if rng.random() < 0.15:
            for a in alts:
                del a["weight"]
        nodes.append({"name": name, "alts": alts})
    if conditions and n > 1:
        for i, node in enumerate(nodes):
            for alt in list(node["alts"]):
                for key in ("requires", "excludes"):
                    if rng.random() < 0.3:
                        alt[key] = condition(rng, nodes, i)
                if rng.random() < 0.15:
                    partition(rng, nodes, i, alt)
    return nodes


def condition(rng, nodes, i):
    out = {}
    # Now and then on the node itself
    others = [k for k in range(len(nodes)) if k != i or rng.random() < 0.1]
    for k in rng.permutation(others)[: int(rng.integers(1, 3))]:
        vals = [a["value"] for a in nodes[k]["alts"]]
        out[nodes[k]["name"]] = ref_for(rng, vals[int(rng.integers(len(vals)))], vals)
    return out


def partition(rng, nodes, i, alt):
    """The same value again, for the cases where the first does not hold."""
    k = int(rng.choice([k for k in range(len(nodes)) if k != i]))
    vals = [a["value"] for a in nodes[k]["alts"]]
    pick = vals[int(rng.integers(len(vals)))]
    ref = [pick] if isinstance(pick, list) else pick
    alt.pop("excludes", None)
    alt["requires"] = {nodes[k]["name"]: ref}
    nodes[i]["alts"].append({"value": alt["value"], "weight": float(rng.uniform(0.1, 1)), "excludes": {nodes[k]["name"]: ref}})


def meets(ref, value):
    if isinstance(ref, list):
        return any(type(value) is type(r) and value == r or (isinstance(r, (int, float)) and isinstance(value, (int, float)) and r == value) for r in ref)
    if isinstance(ref, (int, float)) and isinstance(value, (int, float)):
        return ref == value or (isinstance(ref, float) and math.isclose(ref, value, rel_tol=1e-9))
    return type(ref) is type(value) and ref == value


def expected(nodes):
    """Brute force over the specification."""
    names = [n["name"] for n in nodes]
    out = Counter()
    info = {}
    for combo in itertools.product(*(n["alts"] for n in nodes)):
        if any(a.get("weight", 1) == 0 for a in combo):
            continue
        val = {n: a["value"] for n, a in zip(names, combo)}
        if any(a.get("requires") and not all(meets(r, val[k]) for k, r in a["requires"].items()) for a in combo):
            continue
        if any(a.get("excludes") and all(meets(r, val[k]) for k, r in a["excludes"].items()) for a in combo):
            continue
        key = tuple(hashed(v) for v in val.values())
        out[key] += 1
        info[key] = math.prod(a.get("weight", 1) for a in combo), combo
    return out, info


def build(nodes):
    m = lib()
    return m.LogicTree([m.Node(n["name"], [m.Alternative(**a) for a in n["alts"]]) for n in nodes])


def compare(ctx, tree, nodes):
    want, info = expected(nodes)
    names = [n["name"] for n in nodes]
    total, got = 0.0, Counter()
    for b in tree:
        d = b.as_dict()
        ctx.equal(list(d), names, "order of the nodes")
        key = tuple(hashed(v) for v in d.values())
        got[key] += 1
        ctx.true(key in info, "branch that is not valid", data=d)
        ctx.close(float(b.weight), info[key][0], "weight of a branch", 1e-12)
        ctx.true(bool(tree.is_valid(b)), "branch said not to be valid", data=d)
        total += b.weight
        ctx.see("branches")
    ctx.true(got.keys() == want.keys(), "set of branches", f"{len(got)} of {len(want)}", missing=list(want - got)[:4])
    ctx.true(all(c == 1 for c in got.values()), "branch repeated")
    ctx.close(total, sum(w for w, _ in info.values()), "total weight", 1e-9, 1e-12)
    return want, info, total


def conditional(ctx, rng, i):
    while True:
        nodes = tree_spec(rng)
        want, info = expected(nodes)
        if all(c == 1 for c in want.values()):
            break
    ctx.case(nodes=nodes)
    tree = build(nodes)
    _, _, total = compare(ctx, tree, nodes)
    # The same again: enumeration does not use the tree up
    compare(ctx, tree, nodes)
    ctx.see("empty trees", not want)
    ctx.see("trees with invalid combinations", len(want) < math.prod(len(n["alts"]) for n in nodes))
    # A combination that is not enumerated is not valid
    m = lib()
    names = [n["name"] for n in nodes]
    for _ in range(10):
        combo = [n["alts"][int(rng.integers(len(n["alts"])))] for n in nodes]
        if any(a.get("weight", 1) == 0 for a in combo):
            continue
        branch = m.Branch({n: m.Realization(n, a["value"], a.get("weight", 1), {}, a.get("requires", {}), a.get("excludes", {})) for n, a in zip(names, combo)})
        val = {n: a["value"] for n, a in zip(names, combo)}
        okay = not any(a.get("requires") and not all(meets(r, val[k]) for k, r in a["requires"].items()) for a in combo)
        okay &= not any(a.get("excludes") and all(meets(r, val[k]) for k, r in a["excludes"].items()) for a in combo)
        ctx.equal(bool(tree.is_valid(branch)), okay, "validity of a combination", data=val)
        for n, a in zip(names, combo):
            alone = not (a.get("requires") and not all(meets(r, val[k]) for k, r in a["requires"].items()))
            alone &= not (a.get("excludes") and all(meets(r, val[k]) for k, r in a["excludes"].items()))
            ctx.equal(bool(branch[n].is_valid(branch)), alone, "validity of a realization", data=val)
            ctx.equal(bool(m.Alternative(**a).is_valid(branch)), alone, "validity of an alternative", data=val)
        ctx.see("combinations judged")
    ctx.nontrivial(str(nodes))


def unconditional(ctx, rng, i):
    nodes = tree_spec(rng, conditions=False)
    ctx.case(nodes=nodes)
    m = lib()
    tree = build(nodes)
    _, _, total = compare(ctx, tree, nodes)
    ctx.close(total, math.prod(sum(a.get("weight", 1) for a in n["alts"]) for n in nodes), "total weight of an unconditional tree", 1e-9, 1e-12)
    # Plain values are alternatives of weight one
    plain = [{"name": n["name"], "alts": [{"value": a["value"]} for a in n["alts"]]} for n in nodes]
    tree = m.LogicTree([m.Node(n["name"], [a["value"] for a in n["alts"]]) for n in plain])
    _, _, total = compare(ctx, tree, plain)
    ctx.close(total, math.prod(len(n["alts"]) for n in nodes), "weights of plain values", 1e-12)
    ctx.see("weight totals", 2)
    ctx.nontrivial(str(nodes))


def partitioned(ctx, rng, i):
    """Weights that depend on another node still total one."""
    cases = values_for(rng, int(rng.integers(2, 5)))
    w = rng.dirichlet([2] * len(cases))
    nodes = [{"name": "case", "alts": [{"value": v, "weight": float(x)} for v, x in zip(cases, w)]}]
    for k in range(int(rng.integers(1, 3))):
        vals = values_for(rng, int(rng.integers(1, 4)))
        alts = []
        for c in cases:
            some = [v for v in vals if rng.random() < 0.8] or vals[:1]
            for v, x in zip(some, rng.dirichlet([2] * len(some))):
                alts.append({"value": v, "weight": float(x), "requires": {"case": [c] if isinstance(c, list) else c}})
        nodes.append({"name": f"n{k}", "alts": [alts[j] for j in rng.permutation(len(alts))]})
    nodes = [nodes[j] for j in rng.permutation(len(nodes))]
    ctx.case(nodes=nodes)
    _, _, total = compare(ctx, build(nodes), nodes)
    ctx.close(total, 1, "total weight of a partitioned tree", 1e-9)
    ctx.see("partitioned trees")
    ctx.nontrivial(str(nodes))


def unknown(ctx, rng, i):
    """A requirement on a node that the tree does not have is never met."""
    nodes = tree_spec(rng, conditions=False, most=4)
    k = int(rng.integers(len(nodes)))
    alts = nodes[k]["alts"]
    bad = int(rng.integers(len(alts)))
    ref = str(rng.choice(["a", "b"]))
    alts[bad]["requires"] = {"no such node": [ref, "c"] if rng.random() < 0.5 else ref}
    alts[bad].setdefault("weight", 1.0)
    alts[bad]["weight"] = alts[bad]["weight"] or 0.3
    ctx.case(nodes=nodes)
    try:
        branches = [b.as_dict() for b in build(nodes)]
    except Exception:
        ctx.see("unknown nodes refused")
    else:
        value = hashed(alts[bad]["value"])
        ctx.true(all(hashed(b[nodes[k]["name"]]) != value for b in branches), "branch with a requirement that is not met", data=branches[:3])
    # An exclusion that names it does not apply
    del alts[bad]["requires"]
    want = Counter(tuple(hashed(v) for v in b.as_dict().values()) for b in build(nodes))
    away = {"no such node": [ref, "c"] if rng.random() < 0.5 else ref}
    if rng.random() < 0.5:
        known = nodes[int(rng.integers(len(nodes)))]
        away[known["name"]] = known["alts"][0]["value"]
    alts[bad]["excludes"] = away
    try:
        got = Counter(tuple(hashed(v) for v in b.as_dict().values()) for b in build(nodes))
    except Exception:
        ctx.see("unknown nodes refused")
    else:
        ctx.equal(got, want, "branches with an exclusion of an unknown node")
    ctx.see("unknown nodes judged")
    ctx.nontrivial(str(nodes))


MONITORS = [
    Monitor("conditional", conditional, 400, 12000, {"branches": 4000, "combinations judged": 2000, "trees with invalid combinations": 150}),
    Monitor("unconditional", unconditional, 120, 3000, {"weight totals": 200}),
    Monitor("unknown", unknown, 60, 1000, {"unknown nodes judged": 50}),
    Monitor("partitioned", partitioned, 120, 3000, {"partitioned trees": 100}),
]
