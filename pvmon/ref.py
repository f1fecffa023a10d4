"""Reference models: written from the definitions, without pystrata."""
import numpy as np

G = 9.80665
FIELDS = ("outcrop", "within", "incoming_only")


# ------------------------------------------------------------ complex modulus
def comp_factor(damping, model="dormieux"):
    d = np.clip(np.asarray(damping, dtype=float), 0.0, 0.49)
    if model == "seed":
        return 1 + 2j * d
    if model == "kramer":
        return 1 - d * d + 2j * d
    if model == "dormieux":
        return np.sqrt(1 - 4 * d * d) + 2j * d
    raise ValueError(model)


# ---------------------------------------------------------- SH wave propagation
class SH:
    """Exact layered solution by displacement/stress propagators.

    The state (u, tau) is carried from the free surface (1, 0) downwards; the
    incoming (upward) wave at a depth is (u + tau / (i k G)) / 2.
    Arrays are (layers, freqs).
    """

    def __init__(self, freqs, thick, vs, rho, damping, model="dormieux"):
        self.w = 2 * np.pi * np.asarray(freqs, dtype=float)
        nf, nl = self.w.size, len(thick)
        self.thick = np.asarray(thick, dtype=float)
        gmod = np.empty((nl, nf), dtype=complex)
        for i in range(nl):
            g0 = np.asarray(rho[i]) * np.asarray(vs[i]) ** 2
            gmod[i] = g0 * comp_factor(damping[i], model)
        self.rho = np.asarray(rho, dtype=float)
        self.gmod = gmod
        self.greal = np.array([np.broadcast_to(np.asarray(rho[i]) * np.asarray(vs[i]) ** 2, nf) for i in range(nl)])
        vel = np.sqrt(gmod / self.rho[:, None])
        self.k = self.w / vel
        self.u = np.empty((nl, nf), dtype=complex)
        self.t = np.empty((nl, nf), dtype=complex)
        self.u[0], self.t[0] = 1.0, 0.0
        for i in range(nl - 1):
            self.u[i + 1], self.t[i + 1] = self._at(i, self.thick[i])

    def _at(self, i, z):
        k, g, u, t = self.k[i], self.gmod[i], self.u[i], self.t[i]
        c, s = np.cos(k * z), np.sin(k * z)
        # sin(kz)/(kG) has the limit z/G
        with np.errstate(all="ignore"):
            sk = np.where(k == 0, z / g, s / np.where(k == 0, 1, k) / g)
        return u * c + t * sk, -k * g * s * u + t * c

    def updown(self, loc):
        """Up-going and down-going displacement at (layer, depth within)."""
        i, z = loc
        u, t = self._at(i, z)
        kg = self.k[i] * self.gmod[i]
        with np.errstate(all="ignore"):
            d = np.where(kg == 0, 0, t / (1j * np.where(kg == 0, 1, kg)))
        return (u + d) / 2, (u - d) / 2

    def field(self, loc, field):
        up, dn = self.updown(loc)
        return {"within": up + dn, "outcrop": 2 * up, "incoming_only": up}[field]

    def scale(self, loc):
        """Magnitude of the terms that cancel at a location."""
        up, dn = self.updown(loc)
        return np.abs(up) + np.abs(dn)

    def strain(self, loc):
        i, z = loc
        return self._at(i, z)[1] / self.gmod[i]

    def strain_scale(self, loc):
        return np.abs(self.k[loc[0]]) * self.scale(loc)


def check_ratio(ctx, tf, num, den, snum, sden, label, tol=1e-8, **data):
    """tf == num/den judged without dividing by a small number."""
    tf = np.asarray(tf)
    ctx.true(tf.shape == num.shape, label + " shape", f"{tf.shape} {num.shape}", **data)
    bad = ~(np.abs(tf * den - num) <= tol * (np.abs(tf) * sden + snum))
    if np.any(bad):
        j = int(np.argwhere(bad)[0][0])
        ctx.fail(
            label,
            f"at frequency index {j} ({int(bad.sum())} of {bad.size}): got {tf[j]!r}, "
            f"expected {num[j] / den[j]!r}",
            **data,
        )


# ----------------------------------------------------------------- curves
def curve(strains, values, x, limits):
    """Log-linear interpolation with end values and limits."""
    strains, values = np.asarray(strains, float), np.asarray(values, float)
    x = np.asarray(x, dtype=float)
    out = np.empty(x.shape)
    for idx in np.ndindex(x.shape):
        s = max(float(x[idx]), 1e-9)
        if s <= strains[0]:
            v = values[0]
        elif s >= strains[-1]:
            v = values[-1]
        else:
            j = int(np.searchsorted(strains, s, side="right")) - 1
            j = min(j, len(strains) - 2)
            f = np.log(s / strains[j]) / np.log(strains[j + 1] / strains[j])
            v = values[j] + f * (values[j + 1] - values[j])
        out[idx] = min(max(v, limits[0]), limits[1])
    return out


def soil_state(soil, gmax, dmin, strain):
    """(shear modulus, damping) of a layer at a strain, from the soil's points.

    `soil` is a pystrata soil type: only its curve points are read.
    """
    strain = np.asarray(strain, dtype=float)
    mr = getattr(soil.mod_reduc, "strains", None)
    if mr is None:
        g = gmax * np.ones_like(strain)
    else:
        g = gmax * curve(mr, soil.mod_reduc.values, strain, (0.001, 1.0))
    ds = getattr(soil.damping, "strains", None)
    if ds is None:
        d = dmin * np.ones_like(strain)
    else:
        d = (
            curve(ds, soil.damping.values, strain, (0.0, 0.49))
            - float(soil.damping.values[0])
            + dmin
        )
    return g, d
