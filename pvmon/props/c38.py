"""Random field layouts (widths, types, line breaks, short last fields, blanks, comments)
written as text and parsed back; random nrattle control files (layer counts, numbers in
several notations, comment lines anywhere, quality factors given as Q or 1/Q or zero)
read and converted to profiles. Everything is compared with the numbers as written.
Non-trivial: each distinct text."""
import os
import pathlib

import numpy as np

from .. import gen
from ..core import Monitor

G = 9.80665


def field(rng, kind, width):
    """Text of at most `width` characters and its value."""
    if kind == "int":
        v = int(rng.integers(0, 10 ** min(width, 6))) if width < 2 else int(rng.integers(-(10 ** min(width - 1, 6)) + 1, 10 ** min(width - 1, 6)))
        return str(v), v
    if kind == "float":
        for _ in range(20):
            v = float(rng.choice([0.0, rng.standard_normal() * 10.0 ** rng.integers(-5, 5)]))
            s = str(rng.choice(["{:.3f}", "{:.2E}", "{:.6e}", "{:.0f}", "{:g}"])).format(v)
            if len(s) <= width:
                return s, float(s)
        return "7", 7.0
    if kind == "to_float":
        if rng.random() < 0.3:
            return str(rng.choice(["", "x", "-", "n.a"]))[:width], None
        return field(rng, "float", width)
    chars = "abcXYZ 019.-#" + ("\t\t\"'" if kind == "text" else "")
    s = "".join(rng.choice(list(chars), int(rng.integers(0, width + 1))))
    return s, s.strip()


def fixed(ctx, rng, i):
    t = gen.ps().tools
    parsers = {"int": int, "float": float, "to_float": t.to_float, "str": t.to_str, "text": str}
    nlines = int(rng.integers(1, 8))
    types, lines, want, kinds = [], [], [], []
    for _ in range(nlines):
        k = int(rng.integers(1, 9))
        line = ""
        for j in range(k):
            kind = str(rng.choice(list(parsers)))
            width = int(rng.integers(1, 16))
            s, v = field(rng, kind, width)
            last = j == k - 1
            if not (last and rng.random() < 0.2 and s.strip()):
                # The last field of a line may be shorter than its width
                s = s.rjust(width) if rng.random() < 0.6 else s.ljust(width)
            line += s
            v = s if kind == "text" else v
            types.append((width, parsers[kind]))
            kinds.append(kind)
            want.append(v)
        lines.append(line + "\n" if rng.random() < 0.8 else line)
    ctx.case(lines=lines, types=[(w, k) for (w, _), k in zip(types, kinds)])
    rest = ["following line\n", "another"][: int(rng.integers(0, 3))]
    block = list(lines) + rest
    got = t.parse_fixed_width(types, block)
    ctx.equal(len(got), len(want), "number of fields")
    for g, w, k in zip(got, want, kinds):
        if w is None:
            ctx.true(isinstance(g, float) and np.isnan(g), "unreadable number", f"{g!r}")
        else:
            ctx.true(type(g) is type(w) and g == w, f"{k} field", f"got {g!r}, expected {w!r}")
    ctx.equal(block, rest, "lines left for the next block")
    ctx.see("fields", len(want))
    ctx.see("line breaks", nlines)
    ctx.nontrivial(lines)


def separated(ctx, rng, i):
    t = gen.ps().tools
    sep = str(rng.choice([" ", " ", ",", ";"]))
    k = int(rng.integers(1, 8))
    parsers = {"int": int, "float": float, "to_float": t.to_float}
    kinds = [str(rng.choice(list(parsers))) for _ in range(k)]
    texts, want = [], []
    for kind in kinds:
        while True:
            s, v = field(rng, kind, 12)
            if s and v is not None:
                break
        texts.append(s)
        want.append(v)
    gap = lambda: sep * int(rng.integers(1, 5)) if sep == " " else sep
    line = (gap() if sep == " " and rng.random() < 0.5 else "") + "".join(s + gap() for s in texts[:-1]) + texts[-1] + str(rng.choice(["", "\n"]))
    ctx.case(line=line, kinds=kinds)
    use = [parsers[x] for x in kinds]
    got = t.split_line(line, use) if sep == " " and rng.random() < 0.5 else t.split_line(line, use, sep)
    if k == 1:
        ctx.true(type(got) is type(want[0]) and got == want[0], "single value", f"{got!r}")
    else:
        ctx.equal(list(got), want, "values")
        ctx.equal([type(g) for g in got], [type(w) for w in want], "types")
    ctx.see("separated values", k)
    # More values than parsers: the rest is ignored
    if k > 2:
        ctx.equal(list(t.split_line(line, use[:-1], sep)), want[:-1], "leading values")
    ctx.equal(t.to_float(texts[-1]), want[-1], "number")
    ctx.true(np.isnan(t.to_float(str(rng.choice(["", "a", "1,5", "--"])))), "not a number")
    ctx.equal(t.to_str("  a b \n"), "a b", "text")
    # Words
    alphabet = list("abXY09.,;:'\"-_()/#!%&") if sep == " " else list("abXY09.:'\"-_()/#!%&")
    words = ["".join(rng.choice(alphabet, int(rng.integers(1, 9)))) for _ in range(int(rng.integers(2, 6)))]
    if sep != " ":
        # White space belongs to the fields
        words = [str(rng.choice(["", " ", "  "])) + w + str(rng.choice(["", " "])) if rng.random() < 0.5 else " " if rng.random() < 0.2 else w for w in words]
    use = [t.to_str if rng.random() < 0.5 else str for _ in words]
    ctx.equal(list(t.split_line(sep.join(words), use, sep)), [w if f is str else w.strip() for f, w in zip(use, words)], "words")
    ctx.see("words", len(words))
    ctx.nontrivial(line)


def number(rng, v):
    s = str(rng.choice(["{:.4E}", "{:.6f}", "{:.3e}", "{:.5g}"])).format(v)
    if float(s) == 0 and v:
        s = f"{v:.4E}"
    return s, float(s)


def nrattle(ctx, rng, i):
    t = gen.ps().tools
    n = int(rng.choice([1, 2, rng.integers(1, 40)]))

    def note():
        return [f"!{w}" for w in rng.choice([" note", "", " 1 2 3 4 5", "! a 3.0 4.0", "   09/09/11"], int(rng.choice([0, 0, 1, 3])))]

    pad = lambda: " " * int(rng.integers(1, 5))
    # Text behind the values is ignored, as by a list-directed read
    rear = rng.random() < 0.3
    tail = lambda: str(rng.choice(["", "", " ! soft", "  !", " ! 1 2.0"])) if rear else ""
    nfreq, fmax, od = int(rng.integers(1, 2000)), number(rng, rng.uniform(1, 100)), number(rng, float(rng.choice([0, rng.uniform(0, 3)])))
    lines = note() + [pad() + "09/09/11"] + note() + [pad() + "test_model"] + note()
    lines += [f"{pad()}{nfreq}{pad()}{fmax[0]}{tail()}"] + note() + [pad() + od[0] + tail()] + note()
    rows = []
    for k in range(n):
        th, vs, rho = number(rng, 10 ** rng.uniform(-3.5, 0.3)), number(rng, rng.uniform(0.1, 3.5)), number(rng, rng.uniform(1.2, 2.9))
        u = rng.random()
        iq = ("0.0000E+00", 0.0) if u < 0.2 else number(rng, rng.uniform(0.001, 0.5)) if u < 0.5 else number(rng, 10 ** rng.uniform(-5, -0.01)) if u < 0.65 else number(rng, 10 ** rng.uniform(0.01, 5)) if u < 0.75 else number(rng, rng.uniform(2, 500))
        rows.append((th[1], vs[1], rho[1], iq[1]))
        extra = [number(rng, rng.uniform(0, 5))[0]] if rng.random() < 0.5 else []
        lines.append(pad() + pad().join([str(k + 1), th[0], vs[0], rho[0], iq[0], *extra]) + tail())
        if rng.random() < 0.1:
            lines += note()
    hs = str(rng.choice([f"{rng.uniform(1, 4):.2f}", "3", "2."])), f"{rng.uniform(2, 3):.3f}"
    angle = number(rng, float(rng.choice([0, 45.5, -1])))
    lines += note() + [f"{pad()}{hs[0]}{pad()}{hs[1]}{tail()}"] + note()
    lines += [f"{pad()}{n + 1}{pad()}{angle[0]}{tail()}"] + note()
    p = pathlib.Path(os.path.join(ctx.scratch, "nrattle.ctl"))
    p.write_text("\n".join(lines) + "\n")
    ctx.case(lines=lines)
    ctl = t.read_nrattle_ctl(p)
    ctx.equal((ctl["freq_count"], ctl["freq_max"], ctl["out_depth"]), (nfreq, fmax[1], od[1]), "frequencies and depth")
    ctx.equal((ctl["revision"].strip(), ctl["prefix"].strip()), ("09/09/11", "test_model"), "text")
    ctx.equal((ctl["hs_vel_shear"], ctl["hs_density"]), (float(hs[0]), float(hs[1])), "half-space")
    ctx.equal((ctl["hs_layer"], ctl["inci_angle"]), (n + 1, angle[1]), "source layer and angle")
    for k, name in enumerate(["thickness", "vel_shear", "density", "inv_qual"]):
        ctx.same(np.asarray(ctl["profile"][name], float), [r[k] for r in rows], f"column {name}")
    ctx.equal([int(x) for x in ctl["profile"]["layer"]], list(range(1, n + 1)), "layer numbers")
    for again in range(2):
        prof = t.profile_from_nrattle_ctl(ctl)
        ctx.equal(len(prof), n + 1, "number of layers")
        ctx.equal(prof.wt_depth, 0, "water table")
        depth = 0.0
        for la, (th, vs, rho, iq) in zip(prof, rows):
            ctx.close(la.thickness, th * 1000, "thickness", 1e-12)
            ctx.close(la.depth, depth, "depth", 1e-9, 1e-9)
            ctx.close(la.initial_shear_vel, vs * 1000, "velocity", 1e-12)
            ctx.close(la.unit_wt, rho * G, "unit weight", 1e-12)
            q = np.inf if iq == 0 else iq if iq > 1 else 1 / iq
            ctx.close(la.damping_min, 0.5 / q, "damping", 1e-12)
            ctx.close(la.damping, 0.5 / q, "current damping", 1e-12)
            depth += th * 1000
        h = prof[-1]
        ctx.close([h.initial_shear_vel, h.unit_wt, h.thickness, h.damping_min], [float(hs[0]) * 1000, float(hs[1]) * G, 0, 0], "half-space layer", 1e-12)
        ctx.close(h.depth, depth, "half-space depth", 1e-9)
        ctx.see("nrattle profiles")
    # Without its comments the file means the same
    q = pathlib.Path(os.path.join(ctx.scratch, "plain.ctl"))
    q.write_text("\n".join(x for x in lines if not x.startswith("!")) + "\n")
    c2 = t.read_nrattle_ctl(q)
    ctx.equal(set(c2), set(ctl), "keys without comments")
    ctx.same(np.array(c2["profile"].tolist()), np.array(ctl["profile"].tolist()), "layers without comments")
    ctx.see("nrattle layers", n)
    ctx.see("values followed by text", rear)
    ctx.see("nrattle comments", sum(x.startswith("!") for x in lines))
    ctx.nontrivial(lines)
    p.unlink()
    q.unlink()


MONITORS = [
    Monitor("fixed width", fixed, 500, 15000, {"fields": 3000, "line breaks": 800}),
    Monitor("separated", separated, 400, 12000, {"separated values": 800, "words": 800}),
    Monitor("nrattle", nrattle, 150, 4000, {"nrattle profiles": 200, "nrattle layers": 500, "nrattle comments": 200, "values followed by text": 20}),
]
