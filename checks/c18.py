"""C18: order and completeness of sampling with any number of processes."""

import os

import numpy as np
from hypothesis import strategies as st

from lib import cheapsims as cs
from lib.harness import Inconclusive, Outcome, Suite, check

PROPERTY = "C18"
RULE = (
    "stand-ins: 0-6 (sometimes up to 21) autoignition, PSR and flame cases with metrics that identify the "
    "case, pauses that shuffle the order in which cases finish, failing cases of a candidate, "
    "0-5 worker processes and output directories; real: hydrogen autoignition and PSR cases "
    "sampled together compared with each case simulated on its own; non-trivial: two or more "
    "cases and more than one process or more than one kind of case"
)
ASSUMPTIONS = ["sampled states and metrics of one case are decided by C20-C23 and C28"]


@st.composite
def fake(draw):
    counts = [draw(st.integers(0, 6)), draw(st.integers(0, 4)), draw(st.integers(0, 4))]
    if draw(st.integers(0, 5)) == 0:
        counts[draw(st.integers(0, 2))] = draw(st.sampled_from([10, 11, 12, 21]))
    if not sum(counts):
        counts[draw(st.integers(0, 2))] = 1
    every = [(k, i) for k, n in zip(cs.KINDS, counts) for i in range(n)]
    some = st.lists(st.sampled_from(every), unique=True, max_size=3)
    model = draw(st.sampled_from(["m1.yaml", "m2.yaml", "m3.yaml", "m4.yaml"]))
    return {
        "counts": counts,
        "model": model,
        "phase": draw(st.sampled_from(["", "gas"])) if model != "m4.yaml" else "gas",
        "threads": draw(st.sampled_from([1, 1, 2, 3, 5, 0, 12])),
        "pauses": [[k, i, draw(st.sampled_from([0.002, 0.005, 0.01]))] for k, i in draw(some)],
        "failing": [list(x) for x in draw(some)] if draw(st.booleans()) else [],
        "path": draw(st.sampled_from(["", "", "out", "ABS"])),
        "metrics_first": draw(st.booleans()),
        "default_threads": draw(st.booleans()),
    }


def close(got, want, text):
    got = np.asarray(got)
    check(got.shape == want.shape, "{}: shape {} instead of {}", text, got.shape, want.shape)
    bad = ~(np.abs(got - want) <= 1e-9 * np.abs(want))
    if bad.any():
        where = tuple(int(i) for i in np.argwhere(bad)[0])
        check(False, "{}: {} instead of {} at {}", text, got[where], want[where], where)


def leftovers(before, path):
    found = [
        os.path.join(d, f)
        for d in {".", path or "."}
        for f in os.listdir(d)
        if f.endswith(".h5") and os.path.join(d, f) not in before
    ]
    check(not found, "intermediate files left behind: {}", found)


def run_fake(case):
    from pymars.sampling import sample, sample_metrics

    models = cs.write_models()
    names = models[case["model"]]
    conds = cs.conditions(case["counts"], {"H2": 1.0})
    path = case["path"] if case["path"] != "ABS" else os.path.join(os.getcwd(), "abs out")
    if path:
        os.makedirs(path)
    want, want_rows = cs.expected(case["counts"], conds, names)
    pauses = {(k, i): t for k, i, t in case["pauses"]}
    threads = case["threads"]
    kw = {"phase_name": case["phase"], "path": path}
    if not (threads == 1 and case["default_threads"]):
        kw["num_threads"] = threads
    failing = {tuple(x) for x in case["failing"]}
    want_failing, _ = cs.expected(case["counts"], conds, names, failing)

    def candidate():
        with cs.CheapSims(failing, pauses) as sims:
            got = sample_metrics(case["model"], *conds, **kw)
            runs = sims.runs()
        close(got, want_failing, "metrics alone")
        check(len(runs) == sum(case["counts"]), "{} simulations: {}", len(runs), runs)

    if case["metrics_first"]:
        candidate()
    with cs.CheapSims((), pauses) as sims:
        metrics, data = sample(case["model"], *conds, **kw)
        runs = sims.runs()
    close(metrics, want, "metrics")
    close(data, want_rows, "states")
    check(
        sorted(runs)
        == sorted((k, i, "sample") for k, n in zip(cs.KINDS, case["counts"]) for i in range(n)),
        "simulations run: {}",
        runs,
    )
    if not case["metrics_first"]:
        candidate()
    leftovers((), path)
    several = sum(1 for c in case["counts"] if c) > 1
    labels = {f"{threads} processes", f"{sum(1 for c in case['counts'] if c)} kinds"}
    if failing:
        labels.add("failing cases")
    return Outcome(sum(case["counts"]) > 1 and (threads != 1 or several), labels)


@st.composite
def real(draw):
    mix = st.sampled_from(
        [{"H2": 2.0, "O2": 1.0, "N2": 3.76}, {"H2": 1.0, "O2": 1.0, "AR": 2.0}, {"H2": 2.0, "O2": 1.0}]
    )
    ign = [
        {
            "kind": draw(st.sampled_from(["constant volume", "constant pressure"])),
            "T": float(draw(st.integers(1000, 1600))),
            "P": draw(st.sampled_from([0.5, 1.0, 8.0])),
            "mix": draw(mix),
        }
        for _ in range(draw(st.integers(0, 4)))
    ]
    psr = [
        {
            "T": float(draw(st.integers(300, 900))),
            "P": draw(st.sampled_from([1.0, 5.0])),
            "mix": draw(mix),
        }
        for _ in range(draw(st.integers(0 if ign else 1, 2)))
    ]
    return {
        "ign": ign,
        "psr": psr,
        "threads": draw(st.sampled_from([1, 2, 3, 0])),
        "path": draw(st.sampled_from(["", "out"])),
    }


def run_real(case):
    from pymars.sampling import InputIgnition, InputPSR, sample, sample_metrics
    from pymars.simulation import IgnitionSimulation, PSRSimulation

    path = case["path"]
    for p in {path, "solo"} - {""}:
        os.makedirs(p)
    ign = [InputIgnition(c["kind"], c["T"], c["P"], reactants=c["mix"]) for c in case["ign"]]
    psr = [InputPSR(c["T"], c["P"], reactants=c["mix"]) for c in case["psr"]]
    want, want_rows = [], []
    for cases, cls in ((ign, IgnitionSimulation), (psr, PSRSimulation)):
        for c in cases:
            sim = cls(0, c, "h2o2.yaml", path="solo")
            sim.setup_case()
            try:
                if cls is IgnitionSimulation:
                    sim.run_case()
                metric, rows = sim.process_results()
            except RuntimeError as exc:
                raise Inconclusive(f"simulation failed: {str(exc)[:30]}") from None
            want += list(np.atleast_1d(metric))
            want_rows.append(np.asarray(rows))
    want, want_rows = np.array(want), np.vstack(want_rows)
    kw = {"path": path, "num_threads": case["threads"]}
    metrics, data = sample("h2o2.yaml", ign, psr, **kw)
    close(metrics, want, "metrics")
    bad = np.abs(data - want_rows) > 1e-9 * np.abs(want_rows) + 1e-15
    check(data.shape == want_rows.shape and not bad.any(), "sampled states differ")
    close(sample_metrics("h2o2.yaml", ign, psr, **kw), want, "metrics alone")
    again, data2 = sample("h2o2.yaml", ign, psr, **kw)
    close(again, want, "metrics sampled again")
    check(np.array_equal(data, data2), "states sampled again differ")
    leftovers((), path)
    return Outcome(len(ign) + len(psr) > 1, {f"real, {case['threads']} processes"})


SUITES = [
    Suite("order", fake, run_fake, 480, 6000, hang=90),
    Suite("real", real, run_real, 120, 1600, hang=120),
]
