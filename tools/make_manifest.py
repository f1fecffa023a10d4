"""Write MANIFEST.json from properties.jsonl and the monitors that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "runtime monitoring: reported transfer functions against an independent propagator-matrix reference",
    "C02": "runtime monitoring: identities and metamorphic relations between reported transfer functions",
    "C03": "runtime monitoring: differential execution with and without the just-in-time compiler",
    "C04": "runtime monitoring: formula oracle and energy-budget monitor over reported fields",
    "C05": "runtime monitoring: strain-compatibility oracle on the state after each analysis",
    "C06": "runtime monitoring: recorded trace of peak evaluations and independent further iteration",
    "C07": "runtime monitoring: differential execution of calculators in their limits",
    "C08": "runtime monitoring: reference strain spectra and per-frequency reference solution",
    "C09": "runtime monitoring: recorded histories, judged against fresh objects, with threads",
    "C10": "runtime monitoring: quarter-wavelength reference and refusal monitor over generated profiles",
    "C11": "runtime monitoring: state monitor around profile fits (target met, excluded layers and history untouched)",
    "C12": "runtime monitoring: independent depth and stress bookkeeping over random edit histories",
    "C13": "runtime monitoring: location round trips and boundary oracle",
    "C14": "runtime monitoring: depth-integral oracle for travel-time averages and site period",
    "C15": "runtime monitoring: snapshots of shared objects around every derived-profile operation",
    "C16": "runtime monitoring: tables and profiles round-tripped and compared row by row",
    "C17": "runtime monitoring: interpolation oracle of published and user curves over strain sweeps",
    "C18": "runtime monitoring: model-state checker over random operation histories of soils and layers",
    "C19": "runtime monitoring: independent formulas of empirical curve models and monotonicity watch",
    "C20": "runtime monitoring: equality/hash contract checker over random object families",
    "C21": "runtime monitoring: published tabulations compared with every built-in model",
    "C22": "runtime monitoring: independent discrete Fourier reference for time-series motions",
    "C23": "runtime monitoring: closed-form motion measures over generated records",
    "C24": "runtime monitoring: oscillator reference (frequency domain, exact time stepping, closed forms)",
    "C25": "runtime monitoring: writer/parser round trips of record files, with malformed files",
    "C26": "runtime monitoring: random-vibration estimates by quadrature against motions, strains and outputs",
    "C27": "runtime monitoring: every output definition re-evaluated on the analysis it recorded",
    "C28": "runtime monitoring: sequential model checked against random histories with injected failing runs",
    "C29": "runtime monitoring: ensemble statistics recomputed from recorded runs, with order permutations",
    "C30": "runtime monitoring: invariant monitor over randomised layering and half-space depth",
    "C31": "runtime monitoring: sampled moments and correlations of velocity realisations against the model",
    "C32": "runtime monitoring: realisations matched to the perturbation model, with recorded random draws",
    "C33": "runtime monitoring: object-graph and shared-state checker over realisation histories",
    "C34": "runtime monitoring: enumerated reference semantics of random logic trees",
    "C35": "runtime monitoring: loaded trees compared with trees built in code and with an independent query reference",
    "C36": "runtime monitoring: kappa and damping integrals recomputed before and after adjustment",
    "C37": "runtime monitoring: generic-profile formulas recomputed over the input domain",
    "C39": "runtime monitoring: what was drawn is read back from the axes and compared with the recorded results and layers",
    "C40": "runtime monitoring: differential execution against the ordinary soil of each frequency, and the exact wave solution",
    "C38": "runtime monitoring: independent writer and reader of text formats around every parse",
}
NOTE = {}
DEFAULT_NOTE = "Judged on every generated execution; nothing is claimed about inputs that were not executed. See DESIGN.md."


def main():
    props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        pid = p["id"]
        if os.path.exists(os.path.join(HERE, "pvmon", "props", pid.lower() + ".py")):
            checks.append({
                "property": pid,
                "quick_cmd": f"./check.py {pid} --tier quick",
                "thorough_cmd": f"./check.py {pid} --tier thorough",
                "technique": TECH.get(pid, "runtime monitoring: reference-model oracle over generated executions"),
                "level": "exploration",
                "level_note": NOTE.get(pid, DEFAULT_NOTE),
            })
        else:
            na.append({"property": pid, "reason": "monitor not built yet"})
    m = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -c 'import numpy, scipy, pandas'",
        "checks": checks,
        "not_applicable": na,
        "notes": "No hooks in /repo: everything is observed at the public interface. pystrata is imported from /repo/src by every check.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fp:
        json.dump(m, fp, indent=1)
        fp.write("\n")


main()
