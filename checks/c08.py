"""C08: DRG and PFA select what is reachable over edges at or above the threshold."""

import numpy as np
from hypothesis import strategies as st

from lib import matrices as mx
from lib import problems as pb
from lib.graphref import reachable
from lib.harness import Outcome, Suite, check

PROPERTY = "C08"
RULE = (
    "random coefficient matrices (chains, cycles, sparse and dense; entries and thresholds "
    "equal to each other or one rounding step apart, PFA entries above 1) with up to three "
    "targets and three states: the graph search and the candidate model are compared with a "
    "breadth-first search; non-trivial: some species, but not all, is selected through at "
    "least one edge"
)
ASSUMPTIONS = [
    "in the candidate suite the simulations are replaced by prescribed metrics",
]


@st.composite
def search_cases(draw):
    method = draw(st.sampled_from(["DRG", "PFA"]))
    case = draw(mx.network(3.0 if method == "PFA" else 1.0, 14, 1, long=True))
    case["method"] = method
    values = [v for m in case["matrices"] for row in m for v in row]
    case["thresholds"] = [
        draw(mx.threshold(case, values)) for _ in range(draw(st.integers(1, 4)))
    ]
    if draw(st.integers(0, 9)) == 0:
        case["targets"] = case["targets"] + case["targets"][:1]
    return case


def run_search(case):
    from pymars.drg import trim_drg
    from pymars.pfa import trim_pfa

    trim = trim_drg if case["method"] == "DRG" else trim_pfa
    names = case["names"]
    m = mx.arrays(case)[0]
    before = m.copy()
    targets = [names.index(t) for t in case["targets"]]
    nontrivial = False
    previous = None
    for thr in sorted(case["thresholds"]):
        given_names, given_targets = list(names), list(case["targets"])
        got = trim(m, given_names, given_targets, thr)
        check(np.array_equal(m, before), "the matrix was modified")
        check(
            given_names == names and given_targets == case["targets"],
            "the lists passed in were modified",
        )
        check(len(got) == len(set(got)), "species listed repeatedly: {}", got)
        want = {names[k] for k in reachable(case["matrices"][0], targets, thr)}
        check(
            set(got) == want,
            "{} at threshold {!r} selects {}, reachable are {}",
            case["method"],
            thr,
            sorted(got),
            sorted(want),
        )
        check(
            previous is None or set(got) <= previous,
            "raising the threshold added {}",
            sorted(set(got) - (previous or set())),
        )
        previous = set(got)
        nontrivial |= len(set(case["targets"])) < len(want) < len(names)
    return Outcome(nontrivial, [case["method"]])


@st.composite
def candidate_cases(draw):
    method = draw(st.sampled_from(["DRG", "PFA"]))
    case = draw(mx.network(2.0 if method == "PFA" else 1.0, 8, 3))
    case["method"] = method
    names = case["names"]
    values = [v for m in case["matrices"] for row in m for v in row]
    case["thresholds"] = sorted(
        draw(mx.threshold(case, values)) for _ in range(draw(st.integers(1, 3)))
    )
    case["safe"] = draw(
        st.lists(st.sampled_from(names), max_size=len(names) // 2, unique=True)
    )
    case["land"] = draw(pb.landscape(names, 1))
    case["chain"] = draw(st.booleans())
    case["upper"] = draw(st.sampled_from([None, None, 0.05, 0.5, 1.0]))
    return case


def run_candidate(case):
    from pymars import drg, pfa
    from pymars.reduce_model import ReducedModel

    reduce = drg.reduce_drg if case["method"] == "DRG" else pfa.reduce_pfa
    problem = dict(mx.model_case(case), land=case["land"])
    names, targets, safe = case["names"], case["targets"], case["safe"]
    gas = pb.write_model(problem)
    ign, _, _ = pb.conditions(problem)
    base = np.array(pb.metrics(case["land"], set(names)))
    previous = ReducedModel(model=gas, filename="model.yaml", error=0.0)
    nontrivial = False
    labels = {case["method"], f"states: {len(case['matrices'])}"}
    for thr in case["thresholds"]:
        want = set(safe)
        for m in case["matrices"]:
            ts = [names.index(t) for t in targets]
            want |= {names[k] for k in reachable(m, ts, thr)}
        with pb.FakeSims(problem):
            got = reduce(
                "model.yaml",
                list(targets),
                list(safe),
                thr,
                mx.arrays(case),
                ign,
                base,
                previous_model=previous if case["chain"] else None,
                threshold_upper=case["upper"],
            )
        check(
            set(got.model.species_names) == want,
            "{} candidate at threshold {!r} keeps {}, expected {}",
            case["method"],
            thr,
            sorted(got.model.species_names),
            sorted(want),
        )
        previous = got
        if want - set(targets) - set(safe) and len(want) < len(names):
            nontrivial = True
    if safe:
        labels.add("retained species")
    return Outcome(nontrivial, labels)


SUITES = [
    Suite("search", search_cases, run_search, 6000, 40000),
    Suite("candidate", candidate_cases, run_candidate, 1200, 12000),
]
