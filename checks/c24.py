"""C24: initial states against compositions computed from first principles."""

import numpy as np
from hypothesis import strategies as st

import cantera as ct

from lib import bounds
from lib.harness import Outcome, Suite, check

PROPERTY = "C24"
RULE = (
    "models of 5 to 16 species of gri30.yaml in random order, cases with 1 to 4 reactants as "
    "mole or mass amounts, or fuels and oxidizers of 1 to 3 species (also overlapping, "
    "oxygenated and diluted) at equivalence ratios of 0.05 to 20, 250-2500 K, 0.01-100 atm; the "
    "state of the reactor, of the stirred reactor's inlet (traced twice) and of the flame's gas "
    "are compared with an element balance, for the model and a reduced one with other species "
    "removed; non-trivial: more than one species in the mixture"
)
ASSUMPTIONS = ["equivalence ratio as oxygen needed by fuel over oxygen offered by oxidizer, by mole"]

_species = {}


def gri():
    if not _species:
        for s in ct.Species.list_from_file("gri30.yaml"):
            _species[s.name] = s
    return _species


FUELS = ["H2", "CH4", "CO", "C2H2", "C2H4", "C2H6", "C3H8", "CH3OH", "CH2O", "NH3", "H", "CH3CHO"]
OXIDIZERS = ["O2", "O2", "O2", "N2O", "NO2", "O"]
OTHERS = ["N2", "AR", "H2O", "CO2", "OH", "HO2", "NO", "HCN", "CH3"]

amount = st.one_of(
    st.sampled_from([1e-8, 2e-6, 5e-4, 1e4]),
    st.sampled_from([1.0, 2.0, 0.5, 3.76, 1, 2, 7.52]), st.floats(0.001, 100.0).map(lambda x: round(x, 4))
)


@st.composite
def case(draw):
    fuel = draw(st.lists(st.sampled_from(FUELS), min_size=1, max_size=2, unique=True))
    ox = [draw(st.sampled_from(OXIDIZERS))]
    extra_f = draw(st.lists(st.sampled_from(OTHERS[:4]), max_size=1, unique=True))
    extra_o = draw(st.lists(st.sampled_from(OTHERS[:4]), max_size=2, unique=True))
    names = set(fuel + ox + extra_f + extra_o)
    more = [n for n in FUELS + OXIDIZERS + OTHERS if n not in names]
    more = draw(st.lists(st.sampled_from(more), max_size=8, unique=True))
    order = draw(st.permutations(sorted(names | set(more))))
    out = {
        "species": list(order),
        "T": draw(st.one_of(st.integers(250, 2500), st.floats(250.0, 2500.0))),
        "P": draw(st.one_of(st.sampled_from([1.0, 1, 10]), st.floats(0.01, 100.0))),
        "way": draw(st.sampled_from(["ratio", "mole", "mass", "default"])),
        "gone": draw(st.lists(st.sampled_from(more), unique=True)) if more else [],
        "sim": draw(st.sampled_from(["ign", "psr", "flame"])),
        "kind": draw(st.sampled_from(["constant volume", "constant pressure"])),
        "parse": draw(st.booleans()),
        "phase": draw(st.sampled_from(["", "gas"])),
    }
    if out["way"] == "ratio":
        out["phi"] = draw(st.one_of(st.sampled_from([1.0, 0.5, 2.0, 1]), st.floats(0.05, 20.0)))
        out["fuel"] = {n: draw(amount) for n in fuel + extra_f}
        out["oxidizer"] = {n: draw(amount) for n in ox + extra_o}
    else:
        pick = draw(
            st.lists(st.sampled_from(sorted(names)), min_size=1, max_size=4, unique=True)
        )
        out["reactants"] = {n: draw(amount) for n in pick}
    return out


def need(mix):
    """Moles of O2 needed to burn one mole of the mixture (negative: offered)."""
    total = sum(mix.values())
    out = 0.0
    for n, x in mix.items():
        c = gri()[n].composition
        out += x / total * (c.get("C", 0) + c.get("H", 0) / 4 + c.get("S", 0) - c.get("O", 0) / 2)
    return out


def expected(case):
    """Mole fractions by name."""
    if case["way"] == "ratio":
        f, o = need(case["fuel"]), need(case["oxidizer"])
        if f <= 1e-6 or o >= -1e-6:
            return None
        out = {}
        for mix, moles in ((case["fuel"], case["phi"]), (case["oxidizer"], f / -o)):
            total = sum(mix.values())
            for n, x in mix.items():
                out[n] = out.get(n, 0.0) + moles * x / total
    else:
        out = dict(case["reactants"])
        if case["way"] == "mass":
            el = {e.symbol if hasattr(e, "symbol") else e: ct.Element(e).weight for e in "CHON"}
            el["Ar"] = ct.Element("Ar").weight
            out = {
                n: x / sum(el[e] * k for e, k in gri()[n].composition.items())
                for n, x in out.items()
            }
    total = sum(out.values())
    return {n: x / total for n, x in out.items()}


def inputs(case, model):
    from pymars import sampling

    spec = {"temperature": case["T"], "pressure": case["P"]}
    if case["way"] == "ratio":
        spec.update({"equivalence-ratio": case["phi"], "fuel": case["fuel"], "oxidizer": case["oxidizer"]})
    else:
        spec["reactants"] = case["reactants"]
        if case["way"] != "default":
            spec["composition-type"] = case["way"]
    cls = {
        "ign": sampling.InputIgnition,
        "psr": sampling.InputPSR,
        "flame": sampling.InputLaminarFlame,
    }[case["sim"]]
    if case["sim"] == "ign":
        spec["kind"] = case["kind"]
    if case["parse"]:
        parse = {
            "ign": sampling.parse_ignition_inputs,
            "psr": sampling.parse_psr_inputs,
            "flame": sampling.parse_flame_inputs,
        }[case["sim"]]
        return parse(model, [spec], phase_name=case["phase"])[0]
    return cls(**{k.replace("-", "_"): v for k, v in spec.items()})


def states(case, model):
    """Initial states (T, P, X by name) of all simulations of the case."""
    from pymars import simulation

    out = []
    props = inputs(case, model)
    if case["sim"] == "ign":
        sim = simulation.IgnitionSimulation(0, props, model, phase_name=case["phase"])
        sim.setup_case()
        gas = ct.Solution(model)
        phase = sim.reac.phase
        gas.TPY = sim.reac.T, phase.P, sim.reac.Y
        out.append((gas.T, gas.P, gas.mole_fraction_dict()))
        volume = isinstance(sim.reac, (ct.IdealGasReactor, ct.IdealGasMoleReactor))
        check(
            volume == (case["kind"] == "constant volume"),
            "a {} case uses a {}",
            case["kind"],
            type(sim.reac).__name__,
        )
        return out

    def note(gas, inlet):
        g = ct.Solution(model)
        g.TPY = inlet
        out.append((g.T, g.P, g.mole_fraction_dict()))

    def flame(gas, inlet):
        note(gas, inlet)
        return {"speed": 1.0, "T": [inlet[0], inlet[0] + 1.0], "Y": [inlet[2], inlet[2]], "P": inlet[1]}

    def trace(gas, inlet):
        note(gas, inlet)
        gas.TPY = inlet[0] + 321.0, inlet[1] * 3.0, np.roll(inlet[2], 1)  # as the solver does
        return bounds.curve(1e-4, 1500.0, 1e-2, 1600.0, 0.1, 1700.0, inlet[2])

    with bounds.replaced(flame, trace):
        cls = simulation.FlameSimulation if case["sim"] == "flame" else simulation.PSRSimulation
        sim = cls(0, props, model, phase_name=case["phase"])
        sim.setup_case()
        sim.calculate()
        if case["sim"] == "psr":
            sim.run_case()
        _, rows = cls.process_results(sim)
        check(
            bool(np.all(np.abs(rows[:, 1] - case["P"] * 101325.0) < 1e-9 * case["P"] * 101325.0)),
            "pressure of sampled states is {}, expected {}",
            rows[0, 1],
            case["P"] * 101325.0,
        )
    return out


def run(case):
    want = expected(case)
    if want is None:
        return Outcome(False, {"no fuel in the fuel or no oxygen in the oxidizer"})
    all_species = gri()
    models = []
    for name, names in (
        ("full.yaml", case["species"]),
        ("reduced.yaml", [n for n in case["species"] if n not in case["gone"]]),
    ):
        gas = ct.Solution(
            thermo="ideal-gas",
            kinetics="gas",
            species=[all_species[n] for n in names],
            reactions=[],
            name="gas",
        )
        gas.write_yaml(name)
        models.append((name, names))
    for name, names in models:
        got = states(case, name)
        check(bool(got), "no state recorded")
        for T, P, X in got:
            check(abs(T - case["T"]) < 1e-7 * case["T"], "temperature {} instead of {}", T, case["T"])
            p = case["P"] * 101325.0
            check(abs(P - p) < 1e-7 * p, "pressure {} instead of {}", P, p)
            for n in names:
                a, b = X.get(n, 0.0), want.get(n, 0.0)
                check(
                    abs(a - b) <= 1e-7 * b + 1e-12,
                    "{}: mole fraction of {} is {} instead of {}",
                    name,
                    n,
                    a,
                    b,
                )
    return Outcome(len(want) > 1, {case["way"], case["sim"], "parsed" if case["parse"] else "direct"})


SUITES = [Suite("mixture", case, run, 3000, 40000)]
