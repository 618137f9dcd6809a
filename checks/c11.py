"""C11: the threshold sweep ends and returns its last acceptable candidate."""

from hypothesis import strategies as st

from lib import problems as pb
from lib.harness import Inconclusive, Outcome, Suite, check

PROPERTY = "C11"
RULE = (
    "random networks of isomerisations (also with coefficients between the thresholds of one "
    "level) and random mechanisms with prescribed sampled states "
    "and prescribed metrics as function of the species present; DRG, DRGEP and PFA run on "
    "them and are compared with a reference sweep; non-trivial: the reference sweep accepts "
    "at least two different candidates, or lowers its first threshold, or must give up"
)
ASSUMPTIONS = [
    "simulations are replaced by prescribed metrics and states, so the sweep alone is decided",
    "direct interaction coefficients are those of the package (decided by C05 to C07)",
    "the exact last threshold before giving up (1e-5, 1e-6) may or may not be tried, and "
    "thresholds may be accumulated or rounded once",
]
MAX_STEPS = 600


def strategy():
    return pb.problem(phenomena=False, upper="maybe", paths=False)


def setup(case):
    gas = pb.write_model(case)
    names = gas.species_names
    matrices = pb.matrices_of(case, gas)
    critical = pb.critical_values(
        matrices, [names.index(t) for t in case["targets"]], case["method"] == "DRGEP"
    )
    expected = pb.expected_outcomes(case, names, critical, MAX_STEPS)
    if pb.ambiguous(case, critical, matrices):
        raise Inconclusive("importance at a threshold")
    return gas, names, critical, expected


def run(case):
    gas, names, critical, expected = setup(case)
    world = pb.FakeSims(case)
    got = pb.run_driver(case, world)
    kept = None if got is None else frozenset(got.model.species_names)
    wanted = {None if e is None else e.kept for e in expected}
    check(
        kept in wanted,
        "{} returned {}, the sweep gives {} (critical values {}, limit {})",
        case["method"],
        None if kept is None else sorted(kept),
        [None if w is None else sorted(w) for w in wanted],
        dict(zip(names, critical)),
        case["limit"],
    )
    labels = {case["method"]}
    e = expected[0]
    full = frozenset(names)
    minimal = frozenset(case["targets"]) | frozenset(case["safe"])
    if e is None:
        labels.add("gives up")
    else:
        labels.add(f"level 1e-{abs(e.levels)}")
        if e.kept == full:
            labels.add("nothing removed")
        if e.kept == minimal:
            labels.add("only targets and retained left")
        if len({w for w in wanted}) > 1:
            labels.add("two admissible outcomes")
        labels.add(f"candidates accepted: {accepted(case, names, critical, e)}")
    nontrivial = e is None or abs(e.levels) > 2 or accepted(case, names, critical, e) > 1
    return Outcome(nontrivial, labels)


def accepted(case, names, critical, sweep):
    """Number of different candidates up to and including the returned one."""
    values = {v for v in critical if v < sweep.threshold}
    sets = {
        pb.selected(critical, names, sweep.threshold, case["targets"], case["safe"])
    }
    for v in values:
        if v >= 10.0 ** -abs(sweep.levels):
            sets.add(pb.selected(critical, names, v, case["targets"], case["safe"]))
    return min(len(sets), 9)


SUITES = [
    Suite("sweep", strategy, run, 1600, 12000, hang=120),
    Suite("levels", lambda: pb.ladder(upper="maybe"), run, 800, 8000, hang=120),
]
