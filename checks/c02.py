"""C02: a model written to YAML loads back as the same model."""

import os

import cantera as ct
import numpy as np
from hypothesis import strategies as st

from lib import mechgen as mg
from lib.harness import Inconclusive, Outcome, Suite, check
from lib.models import (
    all_close,
    load_ir,
    plain_diff,
    reaction_data,
    set_state,
    species_list_diff,
    tree,
)

PROPERTY = "C02"
RULE = (
    "random mechanisms (all reaction types, awkward species names), GRI-3.0 and h2o2, each "
    "optionally trimmed first, written under generated names to generated directories, "
    "possibly over existing files; non-trivial: the model has a reaction, or a target "
    "file existed"
)
ASSUMPTIONS = ["Cantera reads YAML input files correctly"]

NAMES = ["", "out.yaml", "a b.yaml", "model.v2.yaml", "reduced_7.yml", "gas.yaml"]
DIRS = ["", "sub", "a/b", "ABS", "."]


@st.composite
def random_case(draw):
    which = draw(st.integers(0, 9))
    case = {
        "file": draw(st.sampled_from(NAMES)),
        "dir": draw(st.sampled_from(DIRS)),
        "exists": draw(st.sampled_from([None, None, "junk", "other"])),
        "reorder": draw(st.booleans()),
    }
    if which == 0:
        case["model"] = draw(st.sampled_from(["h2o2.yaml", "gri30.yaml"]))
        names = MODELS[case["model"]]
    else:
        case["ir"] = draw(mg.mechanism(min_species=2, min_reactions=2, rename=True))
        case["ir"]["name"] = draw(st.sampled_from(["gas", "my-phase", "x.y"]))
        names = [mg.actual_name(case["ir"], n) for n in case["ir"]["sp"]]
    case["remove"] = draw(
        st.one_of(
            st.just([]),
            st.lists(st.sampled_from(names), max_size=len(names) // 2, unique=True),
        )
    )
    case["state"] = draw(mg.state(names))
    case["name"] = draw(st.sampled_from(["", "", "renamed", "with space"]))
    return case


MODELS = {m: ct.Solution(m).species_names for m in ("h2o2.yaml", "gri30.yaml")}


def run(case):
    from pymars.reduce_model import trim
    from pymars.soln2yaml import write

    if "model" in case:
        gas = ct.Solution(case["model"])
        source = case["model"]
    else:
        source = "source_model.yaml"
        gas = load_ir(case["ir"], source)
    if case["remove"]:
        if set(gas.species_names) <= set(case["remove"]):
            raise Inconclusive("nothing left")
        gas = trim(source, case["remove"], "trimmed.yaml")
    if case["name"]:
        gas.name = case["name"]

    here = os.getcwd()
    path = os.path.join(here, "absolute") if case["dir"] == "ABS" else case["dir"]
    if path:
        os.makedirs(path, exist_ok=True)
    expected = os.path.join(path, case["file"] or f"{gas.name}.yaml")
    if case["exists"] == "junk":
        with open(expected, "w") as fh:
            fh.write("description: old\nphases: [\n" * 50)
    elif case["exists"] == "other":
        ct.Solution("h2o2.yaml").write_yaml(expected)
    before = tree(here)
    snapshot = (
        gas.n_species,
        gas.n_reactions,
        [r.equation for r in gas.reactions()],
        gas.name,
    )
    got = write(gas, case["file"], path) if case["file"] else write(gas, path=path)
    check(
        os.path.normpath(str(got)) == os.path.normpath(expected),
        "returned file name {!r} instead of {!r}",
        got,
        expected,
    )
    check(os.path.isfile(expected), "{} was not written", expected)
    new = tree(here) - before - {os.path.relpath(expected, here)}
    check(not new, "additional files written: {}", sorted(new))
    check(
        snapshot
        == (
            gas.n_species,
            gas.n_reactions,
            [r.equation for r in gas.reactions()],
            gas.name,
        ),
        "the model object was modified",
    )
    try:
        again = ct.Solution(got)
    except Exception as exc:  # noqa: BLE001
        check(False, "the written file does not load: {}", str(exc)[:700])
    check(again.name == gas.name, "phase name {!r} became {!r}", gas.name, again.name)
    d = species_list_diff(gas.species(), again.species(), 1e-9)
    check(d is None, "species: {}", d)
    check(again.transport_model == gas.transport_model, "transport model differs")
    r1, r2 = gas.reactions(), again.reactions()
    check(len(r1) == len(r2), "{} reactions became {}", len(r1), len(r2))
    for a, b in zip(r1, r2):
        x, y = reaction_data(a), reaction_data(b)
        x["duplicate"], y["duplicate"] = bool(a.duplicate), bool(b.duplicate)
        for z in (x, y):
            if z["third"]:
                tb = z["third"]
                z["third"] = [tb["name"]] + [
                    tb["eff"].get(n, tb["default"]) for n in gas.species_names
                ]
        d = plain_diff(x, y, 1e-9)
        check(d is None, "reaction {}: {}", a.equation, d)
    names = gas.species_names
    if any(case["state"]["Y"].get(n, 0) > 0 for n in names):
        set_state(gas, names, case["state"])
        set_state(again, names, case["state"])
        if r1:
            for what in ("forward_rates_of_progress", "reverse_rates_of_progress"):
                ok = all_close(getattr(gas, what), getattr(again, what), 1e-6)
                check(ok, "{} differ", what)
        if gas.transport_model not in ("none", "None") and gas.n_species:
            check(
                all_close(gas.viscosity, again.viscosity, 1e-6)
                # the equations of the multicomponent model can be singular
                and (
                    gas.transport_model.startswith("multicomponent")
                    or all_close(gas.thermal_conductivity, again.thermal_conductivity, 1e-6)
                ),
                "transport properties differ",
            )
    labels = {a.reaction_type for a in r1}
    labels.add(f"existing file: {case['exists']}")
    if case["remove"]:
        labels.add("trimmed")
    return Outcome(bool(r1) or case["exists"], labels)


SUITES = [Suite("write", random_case, run, 3000, 90000)]
