"""C13: sensitivity analysis removes only limbo species, in the specified order."""

from lib import problems as pb
from lib.harness import Outcome, Suite, check

PROPERTY = "C13"
RULE = (
    "sensitivity analysis (initial and greedy; limbo list given or not; starting from the "
    "original model, from a reduced model with saved metrics of the original, or after DRG, "
    "DRGEP or PFA) with prescribed metrics of every subset of species; the returned species "
    "are compared with a reference analysis that explores every way of breaking ties; "
    "non-trivial: at least two species are removed"
)
ASSUMPTIONS = [
    "simulations are replaced by prescribed metrics",
    "for species with equally close induced errors any order of removal is accepted",
    "combined runs start the reference from the model and limbo species the method returns",
]


def strategy():
    return pb.sa_problem(modes=["sa", "reduced", "reduced", "both"])


def run(case):
    case, gas = pb.prepare(case)
    names = list(gas.species_names)
    protected = set(case["targets"]) | set(case["safe"])
    land, limit = case["land"], case["limit"]
    if case["mode"] == "both":
        alone = pb.run_problem(dict(case, mode="graph"))
        if alone.model is None:
            return Outcome(False, ["gave up"])
        start = frozenset(alone.model.model.species_names)
        limbo = list(alone.model.limbo_species)
        start_error = pb.error_of(land, start)
    else:
        start = frozenset(names) - set(case["gone"])
        start_error = pb.error_of(land, start)
        limbo = list(case["limbo"]) or [
            n for n in names if n in start and n not in protected
        ]
    want = pb.reference_sa(land, names, start, start_error, limbo, limit, case["kind"])
    res = pb.run_problem(case)
    kept = frozenset(res.model.model.species_names)
    check(
        not (start - kept) - set(limbo),
        "removed {}, which are not limbo species {}",
        sorted((start - kept) - set(limbo)),
        limbo,
    )
    check(
        kept in want,
        "{} analysis from {} (error {}, limit {}, limbo {}) ends at {}, admissible: {}",
        case["kind"],
        sorted(start),
        start_error,
        limit,
        limbo,
        sorted(kept),
        [sorted(w) for w in want],
    )
    removed = len(start - kept)
    labels = {case["kind"], case["mode"], f"removed: {min(removed, 5)}"}
    if removed < len(limbo):
        labels.add("ends at the limit")
    if start_error > 0:
        labels.add("starting error above zero")
    if len(want) > 1:
        labels.add("ties")
    return Outcome(removed >= 2, labels)


SUITES = [Suite("analysis", strategy, run, 1200, 12000, hang=120)]
