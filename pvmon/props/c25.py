"""Written AT2 and SMC files with any number of samples, values per line, partial last
line, comment count, number format, time step, scale factor, line ending and path type,
loaded and compared sample by sample with the numbers as written. Other SMC kinds must
be refused. Non-trivial: each distinct file."""
import os
import pathlib

import numpy as np

from .. import gen
from ..core import Monitor

WORDS = ["KOBE 01/16/95", "NISHI-AKASHI", "H1", "00:25", "rec-7", "(CUE)", "12.5", "A, B", "5 %"]


def numbers(rng, n):
    x = rng.standard_normal(n) * 10.0 ** rng.integers(-6, 2)
    if rng.random() < 0.3:
        x[rng.random(n) < 0.2] = 0.0
    return x


def spaced(rng, words):
    """The words on one line, now and then with wide gaps between them."""
    return "".join(w + " " * int(rng.choice([1, 1, 1, 2, 5])) for w in words).strip()


def fpath(ctx, rng, name):
    p = os.path.join(ctx.scratch, name)
    return p, (p if rng.random() < 0.5 else pathlib.Path(p))


def put(p, lines, rng, end=True):
    eol = "\r\n" if rng.random() < 0.15 else "\n"
    text = eol.join(lines) + (eol if end else "")
    with open(p, "w", newline="") as fp:
        fp.write(text)


def scale_of(rng):
    return float(rng.choice([1.0, 1 / 980.665, -1.0, 2.5, rng.uniform(0.01, 3)]))


def at2(ctx, rng, i):
    m = gen.ps().motion
    n = int(rng.choice([1, 2, 4, 5, 6, 7, rng.integers(1, 400)]))
    per = int(rng.integers(1, 9))
    fmt = str(rng.choice(["{:15.6E}", "{:15.7E}", "{:.5e}", "{:f}", "{:+.3g}", " {!r}"]))
    dt_text = str(rng.choice(["0.0100", "0.005", ".0200", "5.0E-03", "0.00390625", "1e-2", "1.0", "2.50", "0.0001"]))
    words = [fmt.format(float(v)) for v in numbers(rng, n)]
    sep = "" if fmt.startswith(("{:15", " ")) else str(rng.choice([" ", "   ", "\t"]))
    desc = spaced(rng, rng.choice(WORDS, int(rng.integers(1, 5))))
    lines = [
        "PEER NGA STRONG MOTION DATABASE RECORD",
        " " * int(rng.integers(0, 3)) + desc + " " * int(rng.integers(0, 3)),
        "ACCELERATION TIME HISTORY IN UNITS OF G",
        f"{' ' * int(rng.integers(0, 3))}{n}    {dt_text}    NPTS, DT",
    ]
    k = 0
    while k < n:
        step = int(rng.integers(1, per + 1)) if rng.random() < 0.1 else per
        lines.append(sep.join(words[k : k + step]))
        k += step
    if rng.random() < 0.2:
        lines.append("")
    p, arg = fpath(ctx, rng, "a.AT2")
    put(p, lines, rng, end=rng.random() < 0.8)
    want = np.array([float(w) for w in words])
    ctx.case(n=n, per_line=per, fmt=fmt, dt=dt_text, first=words[0])
    mot = m.TimeSeriesMotion.load_at2_file(arg)
    ctx.same(mot.accels, want, "AT2 samples")
    ctx.equal(mot.time_step, float(dt_text), "AT2 time step")
    ctx.equal(mot.description, desc, "AT2 description")
    ctx.equal(str(mot.filename), p, "AT2 file name")
    ctx.close(mot.times, float(dt_text) * np.arange(n), "AT2 times", 1e-12)
    s = scale_of(rng)
    sm = m.TimeSeriesMotion.load_at2_file(arg, s) if rng.random() < 0.5 else m.TimeSeriesMotion.load_at2_file(arg, scale=s)
    ctx.close(sm.accels, s * want, "scaled AT2 samples", 1e-14)
    ctx.equal((sm.time_step, sm.description), (float(dt_text), desc), "header of the scaled AT2")
    # The motion is the one built from the numbers
    ref = m.TimeSeriesMotion("", "", float(dt_text), want)
    ctx.same(mot.fourier_amps, ref.fourier_amps, "AT2 spectrum")
    ctx.same(mot.freqs, ref.freqs, "AT2 frequencies")
    ctx.same(m.TimeSeriesMotion.load_at2_file(arg).accels, want, "AT2 loaded again")
    ctx.see("AT2 samples", n)
    ctx.see("AT2 partial last lines", n % per != 0)
    ctx.nontrivial(n, per, fmt, words[:3])
    os.remove(p)


def fixed10(v):
    """Width-10 field as the SMC format writes it."""
    if v == 0:
        return "    0.0000"
    s = f"{v:.4E}"
    mant, ex = s.split("E")
    t = f"{mant}E{int(ex)}"
    if len(t) > 10:
        t = f"{v:.3E}".split("E")[0] + f"E{int(ex)}"
    return t.rjust(10)


def smc(ctx, rng, i):
    m = gen.ps().motion
    n = int(rng.choice([1, 7, 8, 9, 16, rng.integers(1, 400)]))
    nc = int(rng.choice([0, 1, 2, rng.integers(0, 20), rng.integers(20, 120)]))
    kind = i % 5
    fields = [fixed10(v) for v in numbers(rng, n)]
    assert all(len(f) == 10 for f in fields)
    station = spaced(rng, rng.choice(["VA: Reston;", "Fire Station #25", "A12", "N = 3", "(x)"], int(rng.integers(1, 4))))
    comp = str(rng.choice(["360", "UP", "N 45 E", "N  45   E", "0", "-"]))
    sps = float(rng.choice([50, 100, 200, 250, 128, round(rng.uniform(20, 400), 3)]))
    top = "2 CORRECTED ACCELEROGRAM" if kind else str(
        rng.choice(["1 UNCORRECTED ACCELEROGRAM", "3 VELOCITY", "4 DISPLACEMENT", "5 RESPONSE SPECTRA", "*", "2 CORRECTED ACCELEROGRAM?"])
    )
    text = [
        " " * int(rng.integers(0, 2)) + top + " " * int(rng.integers(0, 9)), "*", "2555b",
        "     2011  08  23    1751 MINERAL, VA", "Moment Mag= 5.80     Ms=          Ml=",
        f"station = {station}   component= {comp}",
        "epicentral dist =    121.4       pk acc =  3.91E+1", "inst type=K2         data source = USGS", "*", "*", "*",
    ]
    ints = rng.integers(0, 9999, 48)
    ints[rng.random(48) < 0.6] = -32768
    ints[15], ints[16] = nc, n
    reals = rng.uniform(-99, 99, 50)
    reals[rng.random(50) < 0.6] = 1.7e38
    reals[1] = sps
    lines = text + ["".join(f"{int(v):10d}" for v in ints[8 * k : 8 * k + 8]) for k in range(6)]
    real_text = [f"{v:15.7E}" for v in reals]
    lines += ["".join(real_text[5 * k : 5 * k + 5]) for k in range(10)]
    for _ in range(nc):
        # By convention comments start with a pipe, but it is their number that counts
        lines.append(str(rng.choice(["|", "|", "", "C "])) + str(rng.choice(["", " note", " 1.0 2.0 3.0", " station = x component= y"])))
    lines += ["".join(fields[k : k + 8]) for k in range(0, n, 8)]
    p, arg = fpath(ctx, rng, "a.smc")
    put(p, lines, rng, end=rng.random() < 0.8)
    ctx.case(n=n, comments=nc, kind=top, samples_per_second=sps, first=fields[0])
    if not kind:
        ctx.raises(lambda: m.TimeSeriesMotion.load_smc_file(arg), "uncorrected SMC", BaseException)
        ctx.see("refused SMC files")
        os.remove(p)
        return
    want = np.array([float(f) for f in fields])
    mot = m.TimeSeriesMotion.load_smc_file(arg)
    ctx.same(mot.accels, want, "SMC samples")
    ctx.close(mot.time_step, 1 / float(real_text[1]), "SMC time step", 1e-12)
    ctx.equal(mot.description, f"{station}; {comp}", "SMC description")
    ctx.equal(str(mot.filename), p, "SMC file name")
    s = scale_of(rng)
    sm = m.TimeSeriesMotion.load_smc_file(arg, scale=s)
    ctx.close(sm.accels, s * want, "scaled SMC samples", 1e-14)
    ctx.equal(sm.time_step, mot.time_step, "time step of the scaled SMC")
    ctx.same(m.TimeSeriesMotion.load_smc_file(arg).accels, want, "SMC loaded again")
    ctx.see("SMC samples", n)
    ctx.see("SMC partial last lines", n % 8 != 0)
    ctx.see("SMC files with comments", nc > 0)
    ctx.nontrivial(n, nc, fields[:3])
    os.remove(p)


MONITORS = [
    Monitor("AT2", at2, 400, 12000, {"AT2 samples": 5000, "AT2 partial last lines": 60}),
    Monitor("SMC", smc, 400, 12000, {"SMC samples": 5000, "refused SMC files": 30, "SMC files with comments": 50, "SMC partial last lines": 60}),
]
