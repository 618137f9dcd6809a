"""C09: DRGEP importance is the largest path product over targets and states."""

import math

import numpy as np
from hypothesis import strategies as st

from lib import matrices as mx
from lib import problems as pb
from lib.graphref import importance
from lib.harness import Inconclusive, Outcome, Suite, check

PROPERTY = "C09"
RULE = (
    "random coefficient matrices with entries in [0, 1] (chains, cycles of weight one, "
    "shortcuts, many states) with up to three targets: importances are compared with a "
    "fixed-point computation over all paths, candidates with the species at or above the "
    "threshold; non-trivial: some species is reached over a path of two or more edges that "
    "beats every direct edge"
)
ASSUMPTIONS = [
    "in the candidate suite the simulations are replaced by prescribed metrics",
    "products are compared to 1e-9 relative",
]


@st.composite
def cases(draw):
    case = draw(mx.network(1.0, 12, 3, long=True))
    if draw(st.integers(0, 9)) == 0:
        case["targets"] = case["targets"] + case["targets"][:1]
    return case


def direct(case):
    names = case["names"]
    out = [0.0] * len(names)
    for m in case["matrices"]:
        for t in case["targets"]:
            out[names.index(t)] = 1.0
            out = [max(x, y) for x, y in zip(out, m[names.index(t)])]
    return out


def run_importance(case):
    from pymars.drgep import get_importance_coeffs

    names = case["names"]
    given = mx.arrays(case)
    before = [m.copy() for m in given]
    got = get_importance_coeffs(list(names), list(case["targets"]), given)
    check(all(np.array_equal(a, b) for a, b in zip(given, before)), "matrix modified")
    check(set(got) == set(names), "importances of {} instead of {}", sorted(got), names)
    want = importance(
        case["matrices"], [names.index(t) for t in case["targets"]], len(names)
    )
    for n, w in zip(names, want):
        g = float(got[n])
        check(
            g == w or math.isclose(g, w, rel_tol=1e-9),
            "importance of {} is {!r}, largest path product is {!r}",
            n,
            g,
            w,
        )
        check(n not in case["targets"] or g == 1.0, "target {} has importance {}", n, g)
    d = direct(case)
    labels = {f"states: {len(case['matrices'])}", f"targets: {len(set(case['targets']))}"}
    if any(w == 0 for w in want):
        labels.add("unreachable species")
    return Outcome(any(w > x for w, x in zip(want, d)), labels)


@st.composite
def search_cases(draw):
    return draw(mx.network(1.0, 12, 1))


def run_search(case):
    """The graph search of one state."""
    import networkx
    from pymars.drgep import graph_search_drgep

    names = case["names"]
    graph = networkx.DiGraph()
    graph.add_nodes_from(names)
    for a, row in zip(names, case["matrices"][0]):
        for b, v in zip(names, row):
            if v:
                graph.add_edge(a, b, weight=v)
    got = graph_search_drgep(graph, list(case["targets"]))
    want = importance(
        case["matrices"], [names.index(t) for t in case["targets"]], len(names)
    )
    for n, w in zip(names, want):
        g = float(got.get(n, 0.0))
        check(
            g == w or math.isclose(g, w, rel_tol=1e-9),
            "the search gives {} for {}, largest path product is {!r}",
            g,
            n,
            w,
        )
    return Outcome(any(w > x for w, x in zip(want, direct(case))), ["one state"])


@st.composite
def candidate_cases(draw):
    case = draw(mx.network(1.0, 8, 2))
    names = case["names"]
    values = importance(
        case["matrices"], [names.index(t) for t in case["targets"]], len(names)
    )
    case["thresholds"] = sorted(
        draw(mx.threshold(case, values)) for _ in range(draw(st.integers(1, 3)))
    )
    case["safe"] = draw(
        st.lists(st.sampled_from(names), max_size=len(names) // 2, unique=True)
    )
    case["land"] = draw(pb.landscape(names, 1))
    case["chain"] = draw(st.booleans())
    return case


def run_candidate(case):
    from pymars import drgep
    from pymars.reduce_model import ReducedModel

    problem = dict(mx.model_case(case), land=case["land"])
    names, targets = case["names"], case["targets"]
    safe = case["safe"]
    gas = pb.write_model(problem)
    ign, _, _ = pb.conditions(problem)
    base = np.array(pb.metrics(case["land"], set(names)))
    coeffs = drgep.get_importance_coeffs(list(names), list(targets), mx.arrays(case))
    want_coeffs = dict(
        zip(
            names,
            importance(
                case["matrices"], [names.index(t) for t in targets], len(names)
            ),
        )
    )
    previous = ReducedModel(model=gas, filename="model.yaml", error=0.0)
    nontrivial = False
    for thr in case["thresholds"]:
        if thr > 1.0:
            continue  # targets would be below the threshold
        for n in names:
            if want_coeffs[n] != thr and math.isclose(want_coeffs[n], thr, rel_tol=1e-9):
                raise Inconclusive("importance next to a threshold")
            if want_coeffs[n] != coeffs[n] and want_coeffs[n] == thr:
                raise Inconclusive("importance next to a threshold")
        want = {n for n in names if want_coeffs[n] >= thr} | set(safe) | set(targets)
        with pb.FakeSims(problem):
            got = drgep.reduce_drgep(
                "model.yaml",
                list(dict.fromkeys(safe + targets)),
                thr,
                dict(coeffs),
                ign,
                base,
                previous_model=previous if case["chain"] else None,
            )
        check(
            set(got.model.species_names) == want,
            "DRGEP candidate at threshold {!r} keeps {}, expected {}",
            thr,
            sorted(got.model.species_names),
            sorted(want),
        )
        previous = got
        nontrivial |= bool(want - set(targets) - set(safe)) and len(want) < len(names)
    return Outcome(nontrivial, ["candidate"])


SUITES = [
    Suite("importance", cases, run_importance, 5000, 40000),
    Suite("search", search_cases, run_search, 1600, 10000),
    Suite("candidate", candidate_cases, run_candidate, 1200, 12000),
]
