"""Published equations of the empirical soil models, written from their equations.

Strains in decimal; returns modulus reduction and damping in decimal. The index
properties fines_cont, plas_index and water_cont of Wang and Stokoe are in percent.
"""
import math

import numpy as np

ATM = 101.325
G = 9.80665


def masing(g, gr, a):
    """Masing damping [percent] of the modified hyperbola; strains in percent."""
    x = g / gr
    hyper = 100 / math.pi * (4 * (1 + x) * (x - np.log1p(x)) / x**2 - 2)
    c = (
        -1.1143 * a * a + 1.8618 * a + 0.2523,
        0.0805 * a * a - 0.0710 * a - 0.0095,
        -0.0005 * a * a + 0.0002 * a + 0.0003,
    )
    return sum(k * hyper ** (j + 1) for j, k in enumerate(c))


def modified_hyperbolic(strains, gr, a, b, dmin):
    """gr in decimal, dmin in decimal."""
    mr = (1 + (strains / gr) ** a) ** -1
    d = b * masing(100 * strains, 100 * gr, a) * mr**0.1 / 100
    best = -math.inf
    out = []
    for v in d:
        best = max(best, v)
        out.append(best + dmin)
    return mr, np.array(out)


def darendeli(strains, plas_index=0, ocr=1, stress_mean=101.3, freq=1, num_cycles=10, damping_min=None):
    p = stress_mean / ATM
    gr = (0.0352 + 0.0010 * plas_index * ocr**0.3246) * p**0.3483 / 100
    if damping_min is None:
        damping_min = (0.8005 + 0.0129 * plas_index * ocr**-0.1069) * p**-0.2889 * (1 + 0.2919 * math.log(freq)) / 100
    return (*modified_hyperbolic(strains, gr, 0.9190, 0.6329 - 0.00566 * math.log(num_cycles), damping_min), damping_min)


def menq(strains, coef_unif=10, diam_mean=5, stress_mean=101.3, num_cycles=10, damping_min=None):
    p = stress_mean / ATM
    gr = 0.12 * coef_unif**-0.6 * p ** (0.5 * coef_unif**-0.15) / 100
    a = 0.86 + 0.1 * math.log10(p)
    if damping_min is None:
        damping_min = 0.55 * coef_unif**0.1 * diam_mean**-0.3 * p**-0.08 / 100
    return (*modified_hyperbolic(strains, gr, a, 0.6329 - 0.00566 * math.log(num_cycles), damping_min), damping_min)


def rollins(strains, stress_mean=101.3, coef_unif=None, num_cycles=10, damping_min=None):
    if coef_unif is None:
        gr = 0.0039 * stress_mean**0.42 / 100
    else:
        gr = 0.0046 * coef_unif**-0.197 * stress_mean**0.52 / 100
    dm = 0.01 if damping_min is None else damping_min
    return (*modified_hyperbolic(strains, gr, 0.84, 0.53 - 0.0057 * math.log(num_cycles), dm), dm)


def two_param(strains, stress_mean=101.3, coeffs=None):
    a, b1, b2, g1, g2, d0, d1, d, c, gd1, gd2 = coeffs or (
        1.04, 0.438, -0.007, 0.011, 0.318, 1.47, -0.2, 13.125, 1.187, 0.11, 0.23)
    p = stress_mean / ATM
    g = 100 * strains
    mr = (1 + (g / (g1 * p**g2)) ** a) ** -(b1 + b2 * p)
    dmin = d0 * p**d1
    t = (g / (gd1 * p**gd2)) ** c
    return mr, (d * t + dmin) / (1 + t) / 100, None


def alemu(strains, plas_index=0.0, ocr=1.0, stress_mean=101.3, fines_cont=1.0):
    p = stress_mean / ATM
    g = 100 * strains
    gmr = 0.166 * ocr**-1.678 * p**0.196 + 0.025 * (plas_index + 1) ** 0.675
    mr = (1 + (g / gmr) ** 0.905) ** -1.373
    dmin = (3.64e-4 * ocr * (plas_index + 1) + 0.012 * fines_cont) / p
    gd = (ocr**-0.381 * p**0.853 + 0.021 * plas_index) ** 1.249
    r = g / gd
    return mr, dmin + 0.29805 * r * (1 + r) ** -0.680, None


def kishida(strains, stress_vert=101.3, organic_content=10, lab_consol_ratio=1):
    """Modulus reduction, damping and unit weight."""
    g = 100 * strains
    x3 = 2 / (1 + math.exp(organic_content / 23))
    gr = math.exp(-1.41 - 0.950 * (x3 - 0.5))
    # The reference strain is in percent throughout
    x2 = math.log(stress_vert)
    lnr = []
    for s in g:
        x1 = math.log(s + gr)
        m1, m2, m3 = -2.5, 4.0, 0.5
        den = math.log((1 + s) / gr)
        b7 = -0.37 * (1 + (math.log(gr) - m1) / den)
        b8 = 0.37 / den
        b5 = 0.37 * m3 / den
        b2 = 1 - 0.37 * m3 * (1 + (math.log(gr) - m1) / den)
        lnr.append(
            5.11 - 0.729 * x1 + b2 * x2 - 0.693 * x3 + (0.8 - 0.4 * x3) * math.log(lab_consol_ratio)
            + b5 * (x1 - m1) * (x2 - m2) + b7 * (x2 - m2) * (x3 - m3) + b8 * (x1 - m1) * (x2 - m2) * (x3 - m3)
        )
    mr = np.exp(np.array(lnr) - lnr[0])
    y = np.log(np.log(1 / mr) + 0.103)
    lnd = 2.86 + 0.571 * y - 0.103 * x2 - 0.141 * x3 + 0.0419 * (y + 1) * (x2 - 4) - 0.240 * (x2 - 4) * (x3 - 0.5)
    uw = math.exp(-0.112 + 0.038 * x2 + 0.360 * x3) * G
    return mr, np.exp(lnd) / 100, uw


# ---------------------------------------------------------------- Wang & Stokoe
ORDER = {
    ("sand", "gmax"): ["p", "e", "d50", "cu", "fc"],
    ("sand", "mr"): ["p", "e", "cu", "fc"],
    ("sand", "dmin"): ["p", "fc", "w", "e", "d50"],
    ("sand", "d"): ["p", "e", "fc", "cu"],
    ("silt", "gmax"): ["p", "e", "w"],
    ("silt", "mr"): ["p", "e", "fc"],
    ("silt", "dmin"): ["p", "e", "fc"],
    ("silt", "d"): ["p", "e", "fc"],
    ("clay", "gmax"): ["p", "e", "ocr", "fc", "pi"],
    ("clay", "mr"): ["p", "e", "fc", "ocr", "pi"],
    ("clay", "dmin"): ["p", "e", "pi", "fc"],
    ("clay", "d"): ["p", "w", "pi", "fc"],
}
SHORT = {"stress_mean": "p", "void_ratio": "e", "diam_50": "d50", "coef_unif": "cu", "fines_cont": "fc",
         "water_cont": "w", "ocr": "ocr", "plas_index": "pi"}
GROUP = {"clean_sand_and_gravel": "sand", "nonplastic_silty_sand": "silt", "clayey_soil": "clay"}


class V(dict):
    __getattr__ = dict.__getitem__


def unpack(group, model, kwds):
    v = V()
    for k, x in kwds.items():
        v[SHORT[k]] = x / ATM if k == "stress_mean" else x / 100 if k in ("fines_cont", "water_cont", "plas_index") else x
    need = ORDER[GROUP[group], model]
    level = -1
    while level + 1 < len(need) and need[level + 1] in v:
        level += 1
    return GROUP[group], level, v


def wang_gmax(group, **kwds):
    g, lv, v = unpack(group, "gmax", kwds)
    p = v.p
    table = {
        "sand": [
            lambda: 108.4 * p**0.51,
            lambda: 67.5 * v.e**-0.86 * p**0.5,
            lambda: 66.5 * v.e ** -(0.75 + (0.009 * v.d50) ** 1.58) * p**0.51,
            lambda: 64.3 * v.cu**-0.21 * v.e ** -(1.08 + (0.09 * v.d50) ** 0.51) * p ** (0.47 * v.cu**0.06),
            lambda: 63.9 * v.cu**-0.21 * v.e ** -(1.12 + (0.09 * v.d50) ** 0.54) * p ** (0.48 * v.cu**0.08 - 1.03 * v.fc),
        ],
        "silt": [
            lambda: 89.1 * p**0.51,
            lambda: 59.2 * v.e**-0.74 * p**0.51,
            lambda: 84.8 * v.e**-0.53 * (1 - 1.32 * v.w) * p**0.52,
        ],
        "clay": [
            lambda: 77.2 * p**0.48,
            lambda: 52.3 * v.e**-1.08 * p**0.4,
            lambda: 18.9 * v.e**-0.97 * (4.5 + v.ocr) ** 0.54 * p**0.48,
            lambda: 34 * v.e**-0.8 * (3.13 + v.ocr) ** 0.53 * (1 - 0.46 * v.fc) * p**0.51,
            lambda: 232.9 * (1 + 0.96 * v.e) ** -2.42 * (1.92 + v.ocr) ** (0.27 + 0.46 * v.pi) * (1 - 0.44 * v.fc) * p**0.49,
        ],
    }
    return table[g][lv](), lv


def wang_mr(strains, group, **kwds):
    g, lv, v = unpack(group, "mr", kwds)
    p = v.p
    table = {
        "sand": [
            lambda: (0.729, 0.985, 0.068 * p**0.4),
            lambda: (0.804, 0.882, (0.13 * v.e**0.545 - 0.043) * p**0.45),
            lambda: (0.834, 0.839, (0.05 * v.e ** (0.1 * v.cu) + 0.011) * p**0.45),
            lambda: (0.834 + v.fc, 0.844 - 1.897 * v.fc, (0.048 * v.e ** (0.089 * v.cu) + 0.008) * p**0.4),
        ],
        "silt": [
            lambda: (1.04, 0.438 - 0.007 * p, 0.011 * p**0.318),
            lambda: (1.139 * math.exp(0.093 * v.e), 0.475 - 0.007 * p, (0.029 * v.e - 0.003) * p**0.335),
            lambda: ((1.495 * v.e + 3.079 * v.fc) ** 0.121, 0.486 - 0.006 * p, (0.031 * v.e - 0.003) * p ** (0.405 - 0.193 * v.fc)),
        ],
        "clay": [
            lambda: (1.364, 0.28, 0.015 * p**0.205),
            lambda: (1.185, 0.475, 0.035 * v.e * p**0.276),
            lambda: (0.966 + 0.378 * v.fc, 0.596 - 0.207 * v.fc, (0.031 * v.e + 0.004 * v.fc) * p**0.25),
            lambda: (0.972 + 0.419 * v.fc, 0.571 - 0.2 * v.fc, (0.025 * v.e + 0.0015 * v.fc) * (p + 0.375 * v.ocr) ** 0.358),
            lambda: (0.896 + 0.412 * v.fc + 0.534 * v.pi, 0.586 - 0.098 * v.e - 0.135 * v.fc,
                     (0.02 * v.e + 0.004 * v.fc) * (p + 0.42 * v.ocr) ** (0.447 - 0.27 * v.pi)),
        ],
    }
    a, b, gmr = table[g][lv]()
    return (1 + (100 * strains / gmr) ** a) ** -b, lv


def wang_dmin(group, **kwds):
    """[percent]"""
    g, lv, v = unpack(group, "dmin", kwds)
    p = v.p
    table = {
        "sand": [
            lambda: 0.77 * p**-0.03,
            lambda: 0.55 * (1 + 29.03 * v.fc) * p**-0.13,
            lambda: 0.64 * (0.26 - v.w) ** 0.11 * (1 + 32.8 * v.fc) * p**-0.12,
            lambda: 0.55 * (1 - v.w) ** (19.45 * v.e - 12.49) * (1 + 23.44 * v.fc) * p**-0.14,
            lambda: 0.6 * (0.99 + v.w) ** (7.45 - 15.23 * v.e + 4.29 * v.d50) * (1 + 21.17 * v.fc) * p**-0.14,
        ],
        "silt": [
            lambda: 1.47 * p**-0.2,
            lambda: 39.11 * (0.44 * v.e) ** (4.32 * v.e) * p**-0.19,
            lambda: 52.16 * (0.41 * v.e) ** (0.81 * v.fc + 5.2 * v.e) * (1 + 5.35 * v.fc) * p**-0.19,
        ],
        "clay": [
            lambda: 2.55 * p**-0.11,
            lambda: 7.62 * 13.48**-v.e * p**-0.29 + 0.72**-v.e,
            lambda: 7.29 * 8 ** -(v.e + 3.31 * v.pi) * (1 + 148 * v.pi**1.95) * p**-0.2 + (0.5 * v.pi) ** (2.54 - 1.8 * v.e),
            lambda: 4.86 * (1.99 + v.fc) ** -(1.91 * v.e + 6.5 * v.pi) * (1 + 106.75 * v.pi**1.64) * p**-0.19
            + (0.46 * v.pi) ** (1.73 - 1.34 * v.e),
        ],
    }
    return table[g][lv](), lv


def wang_damping(strains, group, damping_min, **kwds):
    """damping_min in decimal or None."""
    if damping_min is None:
        damping_min = wang_dmin(group, **kwds)[0] / 100
    g, lv, v = unpack(group, "d", kwds)
    p = v.p
    table = {
        "sand": [
            lambda: (0.93, 15.64, 0.09 * p**0.32),
            lambda: (1.08 * math.exp(0.62 - 0.73 * v.e), 16.39, 0.09 * p**0.39),
            lambda: (1.02 * math.exp(0.56 - 0.72 * v.e), 21.17, 0.13 * (p + 17.94 * v.fc) ** (0.45 - v.fc)),
            lambda: (0.93 * math.exp(0.34 - 0.8 * v.e), 18.13, 0.13 * v.cu**-0.31 * (p + 22.04 * v.fc) ** (0.47 - v.fc)),
        ],
        "silt": [
            lambda: (1.187, 13.125, 0.045 * p**0.293),
            lambda: (1.38 * math.exp(0.25 * v.e), 12.09, 0.0066 * (p + 5.79 * v.e) ** 1.01),
            lambda: (1.39 * math.exp(0.27 * v.e), 12.13, 0.0025 * (p + 5.73 * v.e + 9.17 * v.fc) ** (1.47 - 0.52 * v.fc)),
        ],
        "clay": [
            lambda: (1.12, 19.47, 0.11 * p**0.23),
            lambda: (1.36, 15.16, 0.29 * (0.017 * p + v.w) ** (1.15 + v.w)),
            lambda: (1.48 ** (0.53 + v.pi), 15.61, 0.07 * (0.06 * p + 2.69 * v.w) ** (1.06 + v.w - v.pi)),
            lambda: ((1.91 * v.fc) ** (1.62 * v.pi), 21.7,
                     0.11 * (0.12 * p + 5.29 * v.w - v.fc) ** (1.45 - v.pi + v.w - 1.09 * v.fc)),
        ],
    }
    c, d, gd = table[g][lv]()
    t = (100 * strains / gd) ** c
    return (d * t + 100 * damping_min) / (1 + t) / 100, lv
