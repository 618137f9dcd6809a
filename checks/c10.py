"""C10: a finished reduction respects the error limit and reports the true error."""

import os

import cantera as ct

from lib import problems as pb
from lib.harness import Outcome, Suite, check
from lib.models import close

PROPERTY = "C10"
RULE = (
    "random networks and mechanisms with prescribed sampled states and prescribed metrics "
    "of every subset of species (including failing cases, non-monotonic errors and limits "
    "equal to attainable errors), reduced by DRG, DRGEP, PFA, sensitivity analysis and "
    "combinations; the error of the returned model is recomputed from all metrics; "
    "non-trivial: species were removed and a smaller model was tried and rejected, or the "
    "method gave up"
)
ASSUMPTIONS = [
    "simulations are replaced by prescribed metrics (C20, C23 and C28 decide the simulations)",
]


def strategy():
    return pb.sa_problem()


def run(case):
    case, gas = pb.prepare(case)
    full = frozenset(gas.species_names)
    res = pb.run_problem(case)
    land, limit = case["land"], case["limit"]
    labels = {case["mode"]}
    if case["mode"] in ("graph", "both"):
        labels.add(case["method"])
    tried = {frozenset(e.species) for e in res.log if e.mode == "calculate"}
    rejected = [s for s in tried if pb.error_of(land, s) > limit]
    if res.model is None:
        # every first candidate must have exceeded the limit
        names = gas.species_names
        matrices = pb.matrices_of(case, gas)
        critical = pb.critical_values(
            matrices, [names.index(t) for t in case["targets"]], case["method"] == "DRGEP"
        )
        if not pb.ambiguous(case, critical, matrices):
            for level in (2, 3, 4) + ((5,) if case["method"] == "DRGEP" else ()):
                kept = pb.selected(
                    critical, names, 10.0**-level, case["targets"], case["safe"]
                )
                check(
                    pb.error_of(land, kept) > limit,
                    "gave up although the candidate {} at 1e-{} has error {} <= {}",
                    sorted(kept),
                    level,
                    pb.error_of(land, kept),
                    limit,
                )
        return Outcome(True, labels | {"gave up"})
    kept = frozenset(res.model.model.species_names)
    error = pb.error_of(land, kept)
    check(
        error <= limit,
        "{} {} returned {} with error {} above the limit {}",
        case["mode"],
        case["method"],
        sorted(kept),
        error,
        limit,
    )
    check(
        close(res.model.error, error, 1e-9, 1e-12),
        "reported error is {}, true error of {} is {}",
        res.model.error,
        sorted(kept),
        error,
    )
    if os.path.isfile(res.model.filename):
        written = frozenset(ct.Solution(res.model.filename).species_names)
        if not os.path.samefile(res.model.filename, res.start):
            check(
                close(pb.error_of(land, written), error, 1e-9, 1e-12),
                "the file has error {} instead of {}",
                pb.error_of(land, written),
                error,
            )
    if len(case["n"]) and sum(case["n"]) > 1:
        labels.add("several cases")
    if error > 0:
        labels.add("error above zero")
    return Outcome(len(kept) < len(full) and bool(rejected), labels)


def levels():
    return pb.ladder().map(
        lambda p: dict(p, mode="graph", kind="initial", shape="")
    )


SUITES = [
    Suite("limit", strategy, run, 1600, 16000, hang=120),
    Suite("levels", levels, run, 500, 6000, hang=120),
]
