"""C01: trimming yields the induced sub-model."""

from hypothesis import strategies as st

import cantera as ct
import numpy as np

from lib import mechgen as mg
from lib.harness import Inconclusive, Outcome, Suite, check
from lib.models import (
    all_close,
    file_bytes,
    load_ir,
    reaction_data,
    plain_diff,
    set_state,
    species_list_diff,
)

PROPERTY = "C01"
RULE = (
    "random mechanisms (all reaction types, renamed species, optional decoy phase) or "
    "GRI-3.0/h2o2 with a random list of names to remove (present, absent, repeated); "
    "non-trivial: at least one species and one reaction are removed and at least one "
    "reaction survives"
)
ASSUMPTIONS = [
    "Cantera evaluates the rates of a given model correctly",
    "an M reaction none of whose listed colliders survives may be kept or dropped "
    "when it lists several colliders and default efficiency zero",
]


def names_of(ir):
    return [mg.actual_name(ir, n) for n in ir["sp"]]


@st.composite
def random_case(draw):
    ir = draw(mg.mechanism(min_species=3, min_reactions=3, rename=True))
    names = names_of(ir)
    phase = draw(st.sampled_from(["", "", "gas", "burner"]))
    if phase == "burner":
        ir["name"] = "burner"
        ir["decoy"] = draw(st.sampled_from(["", "gas"])) or None
        if not ir["decoy"]:
            del ir["decoy"]
    most = draw(st.sampled_from([1, 2, 3, len(names)]))
    removed = draw(
        st.lists(
            st.sampled_from(names), min_size=1, max_size=min(most, len(names) - 1) or 1,
            unique=True,
        )
    )
    listed = sorted(
        {n for r in ir["rx"] for n in r.get("efficiencies", {}) if n not in removed}
    )
    if listed and len(removed) < len(names) - 1 and draw(st.booleans()):
        removed.append(draw(st.sampled_from(listed)))
    removed += draw(
        st.lists(
            st.sampled_from(["absent", "h2", "M", "AR ", ""] + removed), max_size=2
        )
    )
    return {
        "ir": ir,
        "phase": phase,
        "file": draw(st.sampled_from(["new.yaml", "reduced_12.yaml", "a.b.yaml"])),
        "removed": removed,
        "state": draw(mg.state(names)),
    }


def expected_reactions(gas, removed):
    """Indices that must survive, and those that may."""
    must, may = [], []
    for i, r in enumerate(gas.reactions()):
        used = set(r.reactants) | set(r.products) | set(r.orders)
        if used & removed:
            continue
        tb = r.third_body
        if tb is not None and tb.default_efficiency == 0:
            possible = {n for n, e in tb.efficiencies.items() if e != 0}
            listed = set(tb.efficiencies)
            if len(listed) == 1 and listed & removed:
                if not possible:
                    may.append(i)
                continue
            if listed and not (possible - removed):
                may.append(i)
                continue
        must.append(i)
    return must, may


def efficiency_by_name(data, names):
    """Replace the collider data by the efficiency of every listed species."""
    tb = data["third"]
    if tb:
        data["third"] = {
            "name": tb["name"],
            "eff": {n: tb["eff"].get(n, tb["default"]) for n in names},
        }
    return data


def compare(gas, new, removed, file, phase, state):
    removed = set(removed)
    left = [s for s in gas.species() if s.name not in removed]
    d = species_list_diff(left, new.species())
    check(d is None, "species: {}", d)
    check(
        new.transport_model == gas.transport_model,
        "transport model {} instead of {}",
        new.transport_model,
        gas.transport_model,
    )
    if phase:
        check(new.name == phase, "phase name {!r} instead of {!r}", new.name, phase)

    names = [s.name for s in left]
    must, may = expected_reactions(gas, removed)
    rx = gas.reactions()
    new_rx = new.reactions()
    kept = []
    pos = 0
    for i in sorted(must + may):
        a = efficiency_by_name(reaction_data(rx[i]), names)
        b = (
            efficiency_by_name(reaction_data(new_rx[pos]), names)
            if pos < len(new_rx)
            else None
        )
        same = b is not None and plain_diff(a, b, 1e-12) is None
        if i in may and not same:
            continue
        check(
            same,
            "reaction {} ({}): expected next in the reduced model, found {}: {}",
            i,
            a["equation"],
            b["equation"] if b else "nothing",
            plain_diff(a, b, 1e-12) if b else "",
        )
        kept.append(i)
        pos += 1
    check(
        pos == len(new_rx),
        "reaction {} should not be in the reduced model",
        new_rx[pos].equation if pos < len(new_rx) else "",
    )

    # rates at a state with none of the removed species
    if not any(state["Y"].get(n, 0) > 0 for n in names):
        state = dict(state, Y={n: 1.0 for n in names})
    set_state(gas, names, state)
    set_state(new, names, state)
    if kept:
        for what in (
            "forward_rates_of_progress",
            "reverse_rates_of_progress",
        ):
            a = getattr(gas, what)[kept]
            b = getattr(new, what)
            ok = all_close(a, b, 1e-7)
            if not ok:
                k = int(np.argmax(np.abs(a - b) / (np.abs(a) + np.abs(b) + 1e-300)))
                check(
                    False,
                    "{} of {}: {} instead of {}",
                    what,
                    new_rx[k].equation,
                    b[k],
                    a[k],
                )
    return kept, must, may


def run(case):
    from pymars.reduce_model import trim
    from pymars.soln2yaml import write

    gas = load_ir(case["ir"], "orig.yaml", case["phase"] if case["phase"] != "gas" else "")
    if set(gas.species_names) <= set(case["removed"]):
        raise Inconclusive("nothing left")
    phase = case["phase"]
    if phase == "gas" and gas.name != "gas":
        phase = ""
    before = file_bytes("orig.yaml")
    removed = list(case["removed"])
    new = trim("orig.yaml", removed, case["file"], phase)
    check(removed == case["removed"], "the exclusion list was modified")
    check(file_bytes("orig.yaml") == before, "the original file was modified")
    kept, must, may = compare(
        gas, new, case["removed"], case["file"], phase, case["state"]
    )
    fn = write(new, "written.yaml")
    try:
        again = ct.Solution(fn)
    except Exception as exc:  # noqa: BLE001
        check(False, "the reduced model does not load: {}", str(exc)[:600])
    check(
        again.species_names == new.species_names
        and [r.equation for r in again.reactions()]
        == [r.equation for r in new.reactions()],
        "the reduced model read back differs",
    )
    labels = sorted({r.reaction_type for r in new.reactions()})
    if may:
        labels.append("no collider left")
    gone = [r for i, r in enumerate(gas.reactions()) if i not in kept]
    for r in gone:
        labels.append("removed " + r.reaction_type)
    return Outcome(
        len(new.species_names) < gas.n_species and gone and kept, set(labels)
    )


SHIPPED = {"h2o2.yaml": None, "gri30.yaml": None}


@st.composite
def shipped_case(draw):
    model = draw(st.sampled_from(["h2o2.yaml", "gri30.yaml"]))
    if SHIPPED[model] is None:
        SHIPPED[model] = ct.Solution(model).species_names
    names = SHIPPED[model]
    removed = draw(
        st.lists(st.sampled_from(names), max_size=len(names) - 1, unique=True)
    )
    return {
        "model": model,
        "removed": removed,
        "phase": draw(st.sampled_from(["", "gri30"])) if model == "gri30.yaml" else "",
        "state": draw(mg.state(names)),
    }


def run_shipped(case):
    from pymars.reduce_model import trim

    gas = ct.Solution(case["model"], case["phase"])
    new = trim(case["model"], case["removed"], "new.yaml", case["phase"])
    kept, must, may = compare(
        gas, new, case["removed"], "new.yaml", case["phase"], case["state"]
    )
    return Outcome(case["removed"] and kept and len(kept) < gas.n_reactions)


SUITES = [
    Suite("random", random_case, run, 4500, 150000),
    Suite("shipped", shipped_case, run_shipped, 160, 3000),
]
