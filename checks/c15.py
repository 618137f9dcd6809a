"""C15: the reported output file is the returned model, and inputs stay intact."""

import os

from hypothesis import strategies as st

import cantera as ct

from lib import problems as pb
from lib.harness import Outcome, Suite, check
from lib.models import file_bytes, plain_diff, reaction_data, species_list_diff

PROPERTY = "C15"
RULE = (
    "random networks and mechanisms (several phase layouts, model files in the working "
    "directory, in subdirectories and at absolute paths, output directories relative and "
    "absolute, with and without the output files of an earlier run) reduced by DRG, DRGEP, PFA, "
    "sensitivity analysis and combinations with prescribed simulations; file name, directory and contents of the result, the bytes of "
    "the starting model and the argument lists are checked; non-trivial: the returned model "
    "is smaller than the starting one"
)
ASSUMPTIONS = ["simulations are replaced by prescribed metrics"]


@st.composite
def cases(draw):
    out = draw(pb.sa_problem())
    # output files of an earlier run in the output directory
    out["stale"] = draw(st.sampled_from(["", "", "model", "text"]))
    return out


def leave_files(case, n):
    where = pb.out_dir(case)
    for k in range(1, n + 1):
        name = os.path.join(where, f"reduced_{k}.yaml")
        if os.path.exists(name):
            continue
        if case["stale"] == "text":
            with open(name, "w") as fh:
                fh.write("an earlier run was interrupted\n")
            continue
        names = [f"OLD{i}" for i in range(k)]
        edges = [[[i], [(i + 1) % k], 1.0] for i in range(k if k > 1 else 0)]
        pb.write_model(
            {"net": {"names": names, "edges": edges}, "give_phase": False}, name
        )


def run(case):
    case, gas = pb.prepare(case)
    if case.get("stale"):
        leave_files(case, gas.n_species)
    before = file_bytes(case["file"])
    cwd = os.getcwd()
    res = pb.run_problem(case)
    check(os.getcwd() == cwd, "the working directory changed")
    check(file_bytes(case["file"]) == before, "the file of the starting model changed")
    check(res.inputs[0] == res.inputs[1], "arguments were modified: {}", res.inputs)
    labels = {"earlier files: " + case.get("stale", "")}
    labels |= {case["mode"], "path: " + (case["path"] or "none")}
    labels.add("model file: " + ({"": "plain", "ABS": "absolute"}.get(case["shape"], "sub")))
    if res.model is None:
        return Outcome(False, labels | {"gave up"})
    name, model = res.model.filename, res.model.model
    check(os.path.isfile(name), "the reported file {} does not exist", name)
    if os.path.samefile(name, res.start):
        loaded = ct.Solution(name, "" if case["mode"] == "reduced" else pb.phase_of(case))
    else:
        where = os.path.join(cwd, "absolute out") if case["path"] == "ABS" else case["path"]
        check(
            os.path.realpath(os.path.dirname(os.path.abspath(name)))
            == os.path.realpath(where or cwd),
            "the file {} is not in the requested directory {}",
            name,
            where,
        )
        loaded = ct.Solution(name)
    d = species_list_diff(model.species(), loaded.species(), 1e-9)
    check(d is None, "species of the file {} and of the model differ: {}", name, d)
    check(
        model.n_reactions == loaded.n_reactions,
        "{} reactions in the file, {} in the model",
        loaded.n_reactions,
        model.n_reactions,
    )
    for a, b in zip(model.reactions(), loaded.reactions()):
        d = plain_diff(reaction_data(a), reaction_data(b), 1e-9)
        check(d is None, "reaction {} differs in the file: {}", a.equation, d)
    # the model itself is the starting model without the removed species
    start = ct.Solution(res.start, "" if case["mode"] == "reduced" else pb.phase_of(case))
    kept = set(model.species_names)
    d = species_list_diff(
        [s for s in start.species() if s.name in kept], model.species(), 1e-9
    )
    check(d is None, "species of the result and of the starting model differ: {}", d)
    equations = [
        r.equation
        for r in start.reactions()
        if set(r.reactants) | set(r.products) | set(r.orders) <= kept
    ]
    check(
        [r.equation for r in model.reactions()] == equations
        or any(r.third_body is not None for r in start.reactions()),
        "reactions of the result are {}, expected {}",
        [r.equation for r in model.reactions()],
        equations,
    )
    return Outcome(len(kept) < start.n_species, labels)


SUITES = [Suite("files", cases, run, 1100, 11000, hang=120)]
