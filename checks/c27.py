"""C27: the order of species, reactions, targets, states and cases has no effect."""

import copy
import os

import cantera as ct
import numpy as np
from hypothesis import strategies as st

from checks.c04 import permute_equation
from lib import mechgen as mg
from lib import problems as pb
from lib.harness import Inconclusive, Outcome, Suite, check
from lib.models import load_ir, set_state

PROPERTY = "C27"
RULE = (
    "random mechanisms and networks, and copies in which species, reactions, the terms of "
    "equations, targets, retained species, sampled states and cases are listed in another "
    "order: coefficients and importances between named species, and the outcome of complete "
    "reductions, must agree; non-trivial: the order of species or reactions really differs "
    "and (reductions) some species was removed"
)
ASSUMPTIONS = [
    "in the reduction suite simulations are replaced by prescribed metrics",
    "cases in which a coefficient lies within 1e-9 of a threshold, or sensitivity analysis "
    "has a tie, are not decided",
]


@st.composite
def coefficient_cases(draw):
    ir = draw(
        mg.mechanism(min_species=2, max_species=8, min_reactions=2, transport=False)
    )
    return {
        "ir": ir,
        "states": draw(st.lists(mg.state(ir["sp"]), min_size=1, max_size=2)),
        "species": draw(st.permutations(range(len(ir["sp"])))),
        "reactions": draw(st.permutations(range(len(ir["rx"])))),
        "flip": draw(st.booleans()),
        "targets": draw(
            st.lists(st.sampled_from(ir["sp"]), min_size=1, max_size=3, unique=True)
        ),
    }


def permuted_document(ir, species, reactions, flip):
    doc = copy.deepcopy(mg.document(ir))
    doc["species"] = [doc["species"][k] for k in species]
    doc["phases"][-1]["species"] = [s["name"] for s in doc["species"]]
    if doc.get("reactions"):
        doc["reactions"] = [doc["reactions"][k] for k in reactions]
        for r in doc["reactions"]:
            r["equation"] = permute_equation(r["equation"], flip)
    return doc


def run_coefficients(case):
    from pymars.drg import create_drg_matrix
    from pymars.drgep import create_drgep_matrix, get_importance_coeffs
    from pymars.pfa import create_pfa_matrix

    ir = case["ir"]
    first = load_ir(ir, "first.yaml")
    if first.n_species != len(ir["sp"]) or first.n_reactions != len(ir["rx"]):
        raise Inconclusive("model not as described")
    mg.write_doc(
        permuted_document(ir, case["species"], case["reactions"], case["flip"]),
        "second.yaml",
    )
    second = ct.Solution("second.yaml")
    names = first.species_names
    index = [second.species_index(n) for n in names]
    drgep = ([], [])
    for s in case["states"]:
        for gas in (first, second):
            if not set_state(gas, [mg.actual_name(ir, n) for n in ir["sp"]], s):
                raise Inconclusive("no mass in a state")
        states = [(g.T, g.P, g.Y.copy()) for g in (first, second)]
        total = first.forward_rates_of_progress + first.reverse_rates_of_progress
        q = np.abs(first.net_rates_of_progress)
        if np.any((q < 1e-4 * total) & (total > 0)):
            raise Inconclusive("reactions near equilibrium")
        if np.any((q > 0) & (q < 1e-250)):
            raise Inconclusive("rates below resolution")
        for create in (create_drg_matrix, create_drgep_matrix, create_pfa_matrix):
            a = np.array(create(states[0], first), float)
            b = np.array(create(states[1], second), float)
            if create is create_drgep_matrix:
                drgep[0].append(a)
                drgep[1].append(b)
            b = b[np.ix_(index, index)]
            i, j = np.unravel_index(np.argmax(np.abs(a - b)), a.shape)
            check(
                abs(a[i, j] - b[i, j]) <= 1e-8 * max(1.0, abs(a[i, j])),
                "{}: {} -> {} is {!r} in one order and {!r} in the other",
                create.__name__,
                names[i],
                names[j],
                a[i, j],
                b[i, j],
            )
    targets = [mg.actual_name(ir, t) for t in case["targets"]]
    one = get_importance_coeffs(list(names), targets, drgep[0])
    two = get_importance_coeffs(
        list(second.species_names), list(reversed(targets)), list(reversed(drgep[1]))
    )
    for n in names:
        check(
            abs(one[n] - two[n]) <= 1e-7,
            "importance of {} is {!r} in one order and {!r} in the other",
            n,
            one[n],
            two[n],
        )
    same = case["species"] == sorted(case["species"])
    return Outcome(not same or len(case["reactions"]) > 1, ["coefficients"])


@st.composite
def reduction_cases(draw):
    problem = draw(pb.sa_problem(modes=["graph", "graph", "graph", "sa", "both"], paths=False))
    problem["shape"] = ""
    if "net" in problem and draw(st.integers(0, 3)) > 0:
        # weights that do not meet thresholds exactly
        for k, e in enumerate(problem["net"]["edges"]):
            e[2] = e[2] * (1.0 + 0.001 * ((k * 7919 + 13) % 97))
    names = pb.species_of(problem)
    n_rx = len(problem["net"]["edges"] if "net" in problem else problem["ir"]["rx"])
    n = problem["n"]
    return {
        "problem": problem,
        "species": draw(st.permutations(range(len(names)))),
        "reactions": draw(st.permutations(range(n_rx))),
        "flip": draw(st.booleans()),
        "targets": draw(st.permutations(problem["targets"])),
        "safe": draw(st.permutations(problem["safe"])),
        "cases": [draw(st.permutations(range(k))) for k in n],
        "reverse": draw(st.booleans()),
    }


def other_problem(case):
    """The same problem with everything listed in another order."""
    p = copy.deepcopy(case["problem"])
    p["targets"], p["safe"] = list(case["targets"]), list(case["safe"])
    n = p["n"]
    order, metric_order = [], []
    offset = 0
    for kind, count in enumerate(n):
        for k in case["cases"][kind]:
            order.append(offset + k)
            if kind == 0:
                metric_order.append(k)
            elif kind == 1:
                metric_order += [n[0] + 3 * k + i for i in range(3)]
            else:
                metric_order.append(n[0] + 3 * n[1] + k)
        offset += count
    p["states"] = [
        list(reversed(p["states"][k])) if case["reverse"] else p["states"][k] for k in order
    ]
    land = p["land"]
    position = {old: new for new, old in enumerate(metric_order)}
    land["base"] = [land["base"][k] for k in metric_order]
    land["w"] = [land["w"][k] for k in metric_order]
    land["pairs"] = [[position[c], a, b, v] for c, a, b, v in land["pairs"]]
    land["fail"] = [[position[c], s] for c, s in land["fail"]]
    if "net" in p:
        net = p["net"]
        net["names"] = [net["names"][k] for k in case["species"]]
        where = {old: new for new, old in enumerate(case["species"])}
        edges = [net["edges"][k] for k in case["reactions"]]
        net["edges"] = [
            [
                [where[k] for k in (reversed(a) if case["flip"] else a)],
                [where[k] for k in (reversed(b) if case["flip"] else b)],
                w,
            ]
            for a, b, w in edges
        ]
    return p


def write(problem, case=None):
    if case is not None and "ir" in problem:
        mg.write_doc(
            permuted_document(
                problem["ir"], case["species"], case["reactions"], case["flip"]
            ),
            problem["file"],
        )
        return ct.Solution(problem["file"])
    return pb.write_model(problem)


def decided(problem, gas):
    """Raise Inconclusive if rounding may decide the outcome."""
    names = gas.species_names
    if problem["mode"] == "sa":
        return
    matrices = pb.matrices_of(problem, gas)
    total = gas.forward_rates_of_progress + gas.reverse_rates_of_progress
    q = np.abs(gas.net_rates_of_progress)
    if "ir" in problem and np.any((q < 1e-4 * total) & (total > 0)):
        raise Inconclusive("reactions near equilibrium")
    critical = pb.critical_values(
        matrices, [names.index(t) for t in problem["targets"]], problem["method"] == "DRGEP"
    )
    marks = [problem["upper"]] if problem["upper"] else []
    for v in critical:
        if v in (0.0, float("inf")) or (v == 1.0 and "net" in problem):
            continue
        if any(abs(v - u) < 1e-8 for u in marks):
            raise Inconclusive("coefficient at a threshold")
        for s in (0.01, 0.001, 1e-4, 1e-5, 1e-6):
            k = v / s
            if 0.5 < k < 2000 and abs(k - round(k)) < 1e-8 * max(1.0, k):
                raise Inconclusive("coefficient at a threshold")
    if any(abs(1.0 - u) < 1e-8 for u in marks) and 1.0 in critical:
        raise Inconclusive("coefficient at a threshold")


def outcome(problem, gas):
    res = pb.run_problem(problem)
    if res.model is None:
        return None
    return {
        "species": sorted(res.model.model.species_names),
        "error": float(res.model.error),
        "limbo": sorted(res.model.limbo_species),
        "reactions": res.model.model.n_reactions,
    }


def run_reduction(case):
    problem = dict(case["problem"])
    os.makedirs("first")
    os.makedirs("second")
    here = os.getcwd()
    os.chdir("first")
    gas = write(problem)
    decided(problem, gas)
    land, limit = problem["land"], problem["limit"]
    names = list(gas.species_names)
    if problem["mode"] in ("sa", "both"):
        protected = set(problem["targets"]) | set(problem["safe"])
        start, limbo = set(names), problem.get("limbo")
        if problem["mode"] == "both":
            alone = pb.run_problem(dict(problem, mode="graph"))
            if alone.model is not None:
                start = set(alone.model.model.species_names)
                limbo = list(alone.model.limbo_species)
        elif not limbo:
            limbo = [n for n in names if n not in protected]
        ways = pb.reference_sa(
            land, names, start, pb.error_of(land, start), limbo or [], limit, problem["kind"]
        )
        if len(ways) > 1:
            raise Inconclusive("tie in the sensitivity analysis")
    one = outcome(problem, gas)
    os.chdir(here)
    os.chdir("second")
    second = other_problem(case)
    two = outcome(second, write(second, case))
    os.chdir(here)
    check(
        one == two,
        "{} {} gives {} in one order and {} in the other",
        problem["mode"],
        problem["method"],
        one,
        two,
    )
    labels = {problem["mode"], problem["method"]}
    moved = case["species"] != sorted(case["species"]) or len(case["reactions"]) > 1
    removed = one is not None and len(one["species"]) < len(names)
    if one is None:
        labels.add("gave up")
    return Outcome(moved and removed, labels)


SUITES = [
    Suite("coefficients", coefficient_cases, run_coefficients, 2000, 40000),
    Suite("reduction", reduction_cases, run_reduction, 800, 8000, hang=120),
]
