"""Common part of the checks of the direct interaction coefficients."""

import cantera as ct
import numpy as np
from hypothesis import strategies as st

from . import mechgen as mg
from .graphref import reaction_terms
from .harness import Outcome, Suite, check
from .models import load_ir, set_state

SHIPPED = {m: ct.Solution(m) for m in ("h2o2.yaml", "gri30.yaml")}


@st.composite
def random_case(draw):
    ir = draw(
        mg.mechanism(min_species=2, max_species=8, min_reactions=2, transport=False)
    )
    states = draw(st.lists(mg.state(ir["sp"]), min_size=1, max_size=4))
    return {"ir": ir, "states": states, "order": draw(st.permutations(range(len(states))))}


@st.composite
def shipped_case(draw):
    model = draw(st.sampled_from(sorted(SHIPPED)))
    gas = SHIPPED[model]
    states = []
    for _ in range(draw(st.integers(1, 2))):
        # either a random state or one on a burning trajectory
        s = draw(mg.state(gas.species_names))
        if draw(st.booleans()):
            s["Y"] = draw(
                mg.composition([n for n in gas.species_names if n in mg.POOL])
            )
        if draw(st.integers(0, 3)) == 0:
            s["equilibrate"] = True
        states.append(s)
    return {"model": model, "states": states, "order": list(range(len(states)))}


STAR = ["H2", "O2", "H2O2", "H2O2-B", "OH", "OH*", "HO2", "H", "O", "H2O", "O3"]
STAR_RX = [
    "H2 + O2 => H2O2",
    "H2 + O2 => H2O2-B",
    "H2 + O2 => 2 OH",
    "H2 + O2 => OH + OH*",
    "H2 + O2 => HO2 + H",
    "H2 + O2 <=> 2 OH*",
]
OTHER_RX = [
    "O + O2 => O3",
    "H + O <=> OH",
    "2 H => H2",
    "2 O <=> O2",
    "OH + H => H2O",
    "OH* => OH",
    "HO2 <=> H + O2",
]


@st.composite
def star_case(draw):
    """Many reactions that all consume the same two species: sums of the same
    terms in different groupings, where rounding can push shares past one."""
    rx = []
    names = draw(
        st.lists(st.sampled_from(STAR_RX * 4 + OTHER_RX), min_size=2, max_size=24)
    )
    for eq in names:
        entry = {"equation": eq, "rate-constant": draw(mg.arrhenius(8, 13, 3000))}
        if names.count(eq) > 1:
            entry["duplicate"] = True
        rx.append(entry)
    ir = {"sp": STAR, "rx": rx, "name": "gas", "tr": False}
    states = draw(st.lists(mg.state(["H2", "O2", "H", "O"]), min_size=1, max_size=3))
    return {"ir": ir, "states": states, "order": list(range(len(states)))}


def prepare(gas, s):
    """State tuple as the package passes it (T, P, mass fractions)."""
    set_state(gas, gas.species_names, s)
    if s.get("equilibrate"):
        try:
            gas.equilibrate("TP")
        except Exception:  # noqa: BLE001
            set_state(gas, gas.species_names, s)
    return gas.T, gas.P, gas.Y.copy()


def run_coeff(case, function, reference, upper):
    if "ir" in case:
        gas = load_ir(case["ir"])
        ref_gas = ct.Solution("model.yaml")
    else:
        gas = ct.Solution(case["model"])
        ref_gas = SHIPPED[case["model"]]
    n = gas.n_species
    first = {}
    labels = set()
    interesting = False
    tuples = [prepare(ref_gas, s) for s in case["states"]]
    for k in list(range(len(tuples))) + case["order"]:
        ref_gas.TPY = tuples[k]
        if not np.all(np.isfinite(ref_gas.net_rates_of_progress)):
            labels.add("rate of progress overflows")
            continue
        temp, pres, y = tuples[k]
        y_arg = y.copy()
        got = np.array(function((temp, pres, y_arg), gas), dtype=float)
        check(np.array_equal(y_arg, y), "the state passed in was modified")
        check(got.shape == (n, n), "matrix of shape {}", got.shape)
        check(np.all(np.isfinite(got)), "non-finite coefficient at state {}", k)
        check(np.all(got >= 0), "negative coefficient {}", got.min())
        if upper is not None:
            i, j = np.unravel_index(np.argmax(got), got.shape)
            check(
                got[i, j] <= upper,
                "coefficient {} -> {} is {!r}",
                gas.species_names[i],
                gas.species_names[j],
                got[i, j],
            )
        if k in first:
            check(
                np.array_equal(first[k], got),
                "state {} gives another matrix when evaluated again",
                k,
            )
            continue
        first[k] = got.copy()
        terms = reaction_terms(ref_gas)
        want = reference(terms, n)
        for a in range(n):
            if want[a] is None:
                labels.add("row below resolution")
                continue
            for b in range(n):
                check(
                    abs(got[a, b] - want[a][b]) <= 1e-9 * max(1.0, want[a][b]),
                    "state {}: coefficient {} -> {} is {!r}, definition gives {!r}",
                    k,
                    gas.species_names[a],
                    gas.species_names[b],
                    got[a, b],
                    want[a][b],
                )
                if 1e-6 < want[a][b] < 1 - 1e-6:
                    interesting = True
        if all(q == 0 for _, _, q in terms):
            labels.add("no active reaction")
        elif any(q == 0 for _, _, q in terms):
            labels.add("some reactions inactive")
        if any(q < 0 for _, _, q in terms):
            labels.add("negative net rates")
    if interesting:
        labels.add("coefficient between 0 and 1")
    return Outcome(interesting, labels)


def suites(function_name, module_name, reference, upper):
    import importlib

    def run(case):
        module = importlib.import_module("pymars." + module_name)
        return run_coeff(case, getattr(module, function_name), reference, upper)

    return [
        Suite("random", random_case, run, 4000, 120000),
        Suite("star", star_case, run, 1600, 60000),
        Suite("shipped", shipped_case, run, 160, 6000),
    ]


RULE = (
    "random mechanisms (all reaction types, zero to ten reactions) and GRI-3.0/h2o2 at "
    "random states (also with absent species, and chemical equilibrium), each state "
    "evaluated twice in different order with one model object; non-trivial: some "
    "coefficient lies strictly between 0 and 1"
)
ASSUMPTIONS = [
    "Cantera's net rates of progress are correct",
    "rows whose gross rate is below 1e-280 kmol/m3/s are not compared",
]
