"""Random profiles (with equal layers) queried by depths inside layers, exactly at and
next to interfaces, at the surface and below the half-space top, and by positive and
negative numbers; also through the output locations, and while layers are edited.
Non-trivial: a profile with at least two layers."""
import numpy as np

from .. import gen
from ..core import Monitor

FIELDS = ("outcrop", "within", "incoming_only")


def tops_of(prof):
    return np.r_[0.0, np.cumsum([float(la.thickness) for la in prof])[:-1]]


def judge(ctx, prof, loc, k, z, field, label):
    ctx.equal(loc.index, k, f"{label}: layer number", depth=z)
    ctx.true(loc.layer is prof[k], f"{label}: the layer itself")
    ctx.close(loc.depth_within, z, f"{label}: depth within the layer", 0, 1e-9)
    ctx.equal(loc.wave_field, gen.ps().motion.WaveField[field], f"{label}: wave field")
    ctx.see("locations")


def lookup(ctx, rng, i):
    spec = gen.profile_spec(rng, max_thick=20)
    if i % 3 == 0:
        # Many equal layers of the same soil
        la = dict(spec["layers"][0])
        spec["layers"] = [dict(la) for _ in range(int(rng.integers(2, 6)))] + spec["layers"][-1:]
    prof = gen.build_profile(spec)
    out = gen.ps().output
    mot = gen.ps().motion
    ctx.case(profile=spec)
    nl = len(prof)
    # Output locations live on while the profile is edited
    kept = [out.OutputLocation("within", depth=float(d)) for d in rng.uniform(0, tops_of(prof)[-1] + 5, 3)]
    kept += [out.OutputLocation("outcrop", index=-1), out.OutputLocation("incoming_only", index=0)]
    for rnd in range(3):
        if rnd == 2:
            # The list of layers itself may be edited too
            how = int(rng.integers(4))
            new = gen.build_profile({**spec, "layers": spec["layers"][:1] + spec["layers"][-1:]})[0]
            if how == 0:
                prof.layers.insert(int(rng.integers(nl)), new)
            elif how == 1 and nl > 1:
                del prof.layers[int(rng.integers(nl - 1))]
            elif how == 2 and nl > 1:
                prof.layers[int(rng.integers(nl - 1))] = new
            else:
                prof.insert(int(rng.integers(nl)), new)
            ctx.see("edits of the list of layers")
            nl = len(prof)
        tops = tops_of(prof)
        for o in kept:
            if o.depth is None:
                k, z = range(nl)[o.index], 0.0
            else:
                k = int(np.searchsorted(tops, o.depth, side="right") - 1)
                z = o.depth - tops[k]
            judge(ctx, prof, o(prof), k, z, str(o.wave_field.name), "output location after edits")
        tops = tops_of(prof)
        depths = list(rng.uniform(0, tops[-1] + 30, 6)) + list(tops) + [tops[-1] + 1e4, int(tops[-1] / 2)]
        for t in tops[1:]:
            depths += [np.nextafter(t, 0), np.nextafter(t, 1e9), t - 1e-6]
        for d in depths:
            k = int(np.searchsorted(tops, d, side="right") - 1)
            f = FIELDS[int(rng.integers(3))]
            wf = mot.WaveField[f] if rng.random() < 0.5 else f
            judge(ctx, prof, prof.location(wf, depth=d), k, d - tops[k], f, "by depth")
            judge(ctx, prof, out.OutputLocation(wf, depth=d)(prof), k, d - tops[k], f, "output by depth")
            j, z = prof.lookup_depth(d)
            ctx.equal(j, k, "depth lookup: layer number")
            ctx.close(z, d - tops[k], "depth lookup: depth within", 0, 1e-9)
        for k in range(-nl, nl):
            f = FIELDS[int(rng.integers(3))]
            judge(ctx, prof, prof.location(f, index=k), k % nl, 0.0, f, "by number")
            judge(ctx, prof, out.OutputLocation(f, index=k)(prof), k % nl, 0.0, f, "output by number")
            for n in (np.int64(k), np.int32(k), np.arange(-nl, nl)[k + nl]):
                judge(ctx, prof, prof.location(f, index=n), k % nl, 0.0, f, "by a numpy number")
                judge(ctx, prof, out.OutputLocation(f, index=n)(prof), k % nl, 0.0, f, "output by a numpy number")
            ctx.equal(prof.index(prof[k]), k % nl, "position of a layer")
        # Locations follow edits (dyadic thickness, so that depths stay exact)
        k = int(rng.integers(nl))
        prof[k].thickness = float(rng.integers(1, 200)) / 16
    for kw in ({}, {"depth": 1.0, "index": 0}, {"depth": 0.0, "index": -1}):
        ctx.raises(lambda: prof.location("outcrop", **kw), "neither or both selectors", selectors=kw)
    ctx.raises(lambda: prof.location("sideways", depth=0.0), "unknown wave field")
    ctx.raises(lambda: prof.location("outcrop", index=nl), "layer number out of range")
    ctx.raises(lambda: prof.location("outcrop", index=-nl - 1), "layer number out of range")
    if nl > 1:
        ctx.nontrivial(spec)


MONITORS = [Monitor("lookup", lookup, 300, 9000, {"locations": 5000, "edits of the list of layers": 100})]
