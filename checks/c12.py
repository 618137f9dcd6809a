"""C12: targets, retained and initial-mixture species are never removed."""

from hypothesis import strategies as st

from lib import problems as pb
from lib.harness import Outcome, Suite, check

PROPERTY = "C12"
RULE = (
    "random networks and mechanisms with prescribed simulations, reduced by DRG, DRGEP, PFA, "
    "sensitivity analysis and combinations, called as a library and through an input "
    "specification whose conditions name fuel, oxidizer and reactant species; the returned "
    "model and every model tried must contain all protected species; non-trivial: the method "
    "itself would not have selected some protected species (or the analysis was free to "
    "remove it), and at least one species was removed"
)
ASSUMPTIONS = ["simulations are replaced by prescribed metrics"]


def examine(case, gas, res, protected):
    names = list(gas.species_names)
    for e in res.log:
        check(
            protected <= set(e.species),
            "a model without {} was tried ({}, {})",
            sorted(protected - set(e.species)),
            case["mode"],
            case["method"],
        )
    labels = {case["mode"], case["method"] if case["mode"] in ("graph", "both") else "SA"}
    if res.model is None:
        return Outcome(False, labels | {"gave up"})
    kept = set(res.model.model.species_names)
    check(
        protected <= kept,
        "{} {} removed the protected species {}",
        case["mode"],
        case["method"],
        sorted(protected - kept),
    )
    left_alone = protected
    if case["mode"] in ("graph", "both"):
        matrices = pb.matrices_of(case, gas)
        critical = pb.critical_values(
            matrices, [names.index(t) for t in case["targets"]], case["method"] == "DRGEP"
        )
        left_alone = {s for s in protected if critical[names.index(s)] < 0.01}
    return Outcome(len(kept) < len(names) and bool(left_alone), labels)


def run_library(case):
    case, gas = pb.prepare(case)
    return examine(
        case, gas, pb.run_problem(case), set(case["targets"]) | set(case["safe"])
    )


@st.composite
def input_cases(draw):
    case = draw(pb.sa_problem(modes=["graph", "sa", "both"], paths=False))
    names = pb.species_of(case)
    case["shape"] = ""
    case["mixtures"] = []
    few = st.lists(st.sampled_from(names), min_size=1, max_size=2, unique=True)
    for _ in range(sum(case["n"])):
        if draw(st.booleans()):
            case["mixtures"].append({"reactants": draw(few)})
        else:
            case["mixtures"].append({"fuel": draw(few), "oxidizer": draw(few)})
    case["sa_targets"] = draw(st.booleans())
    case["sa_upper"] = draw(st.sampled_from([None, 0.05, 0.3]))
    return case


def specification(case):
    n = case["n"]
    entries = []
    for k, mix in enumerate(case["mixtures"]):
        e = {"temperature": 1000.0 + k, "pressure": 1.0}
        if k < n[0]:
            e["kind"] = "constant volume"
        if "reactants" in mix:
            e["reactants"] = {s: 1.0 for s in mix["reactants"]}
        else:
            e["equivalence-ratio"] = 1.0
            e["fuel"] = {s: 1.0 for s in mix["fuel"]}
            e["oxidizer"] = {s: 1.0 for s in mix["oxidizer"]}
        entries.append(e)
    spec = {
        "model": case["file"],
        "error": case["limit"] or 1.0,
        "autoignition-conditions": entries[: n[0]],
        "psr-conditions": entries[n[0] : n[0] + n[1]],
        "laminar-flame-conditions": entries[n[0] + n[1] :],
        "retained-species": list(case["safe"]),
        "phase-name": pb.phase_of(case),
    }
    if case["mode"] in ("graph", "both"):
        spec["method"] = case["method"]
        spec["targets"] = list(case["targets"])
    elif case.get("sa_targets"):
        spec["targets"] = list(case["targets"])
    if case["mode"] != "graph":
        spec["sensitivity-analysis"] = True
        spec["sensitivity-type"] = case["kind"]
    upper = case["upper"] if case["mode"] != "sa" else case["sa_upper"]
    if upper:
        spec["upper-threshold"] = upper
    return spec


def run_input(case):
    from pymars.pymars import main, parse_inputs

    case, gas = pb.prepare(case)
    spec = specification(case)
    inputs = parse_inputs(spec)
    world = pb.FakeSims(case)
    with world:
        try:
            got = main(
                inputs.model,
                inputs.error,
                inputs.ignition_conditions,
                inputs.psr_conditions,
                inputs.flame_conditions,
                method=inputs.method,
                target_species=inputs.target_species,
                safe_species=inputs.safe_species,
                phase_name=inputs.phase_name,
                run_sensitivity_analysis=inputs.sensitivity_analysis,
                upper_threshold=inputs.upper_threshold,
                sensitivity_type=inputs.sensitivity_type,
            )
        except SystemExit:
            got = None
    protected = set(case["safe"])
    if "targets" in spec:
        protected |= set(case["targets"])
    for mix in case["mixtures"]:
        for part in mix.values():
            protected |= set(part)
    return examine(case, gas, pb.Result(got, world.log, case["file"], None), protected)


SUITES = [
    Suite("library", pb.sa_problem, run_library, 800, 8000, hang=120),
    Suite("input", input_cases, run_input, 700, 7000, hang=120),
]
