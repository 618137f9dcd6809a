"""C28: flame metric and samples against the flame solution."""

import os

import numpy as np
from hypothesis import strategies as st

import cantera as ct

from checks.c21 import verify
from lib import bounds
from lib.harness import Inconclusive, Outcome, Suite, check

PROPERTY = "C28"
RULE = (
    "profiles: generated flame solutions (speed, profile of 2-60 points, flame pressure, solver "
    "failures) behind the package's own simulation, metric and sampling functions, with default "
    "and given minimum speeds, mixtures by moles, mass or equivalence ratio, 1-3 cases; flames: "
    "hydrogen flames solved by the package and, from another width with finer criteria, by this "
    "check; non-trivial: the flame exists, or is decided by a given minimum speed"
)
ASSUMPTIONS = [
    "two grid-converged solutions of one flame may differ by 6 % in speed",
]

MIXES = st.one_of(
    st.fixed_dictionaries(
        {
            "reactants": st.dictionaries(
                st.sampled_from(["H2", "O2", "N2", "AR", "H2O"]),
                st.sampled_from([0.5, 1.0, 2.0, 3.76]),
                min_size=1,
                max_size=4,
            ),
            "composition_type": st.sampled_from(["mole", "mass"]),
        }
    ),
    st.fixed_dictionaries(
        {
            "equivalence_ratio": st.sampled_from([0.5, 0.7, 1.0, 2.5]),
            "fuel": st.sampled_from([{"H2": 1.0}, {"H2": 2.0, "AR": 1.0}]),
            "oxidizer": st.sampled_from([{"O2": 1.0, "N2": 3.76}, {"O2": 1.0}, {"O2": 1.0, "AR": 4.0}]),
        }
    ),
)


@st.composite
def solution(draw):
    n = draw(st.integers(2, 60))
    shape = draw(st.sampled_from(["rising", "any", "jump"]))
    if shape == "rising":
        f = sorted(draw(st.lists(st.floats(0.0, 1.0), min_size=n, max_size=n)))
    elif shape == "any":
        f = draw(st.lists(st.floats(-0.05, 1.2), min_size=n, max_size=n))
    else:
        k = draw(st.integers(1, n - 1))
        f = [0.0] * k + [0.97] * (n - k)
    f[0], f[-1] = 0.0, 1.0
    return {
        "f": f,
        "rise": draw(st.sampled_from([500.0, 1234.5, 2000.0])),
        "speed": draw(
            st.one_of(
                st.floats(0.051, 40.0),
                st.sampled_from([-1.0, 0.0, 1e-6, 0.01, 0.03, 0.04, 0.05, 0.06, 0.1, 0.2, 0.5]),
            )
        ),
        "error": draw(st.integers(0, 9)) == 0,
        "seed": draw(st.integers(0, 999)),
    }


@st.composite
def fake(draw):
    conditions = draw(
        st.lists(
            st.fixed_dictionaries(
                {
                    "T": st.sampled_from([300.0, 333.3, 500.0, 298.15]),
                    "P": st.sampled_from([1.0, 0.5, 10.0, 2.7]),
                    "width": st.sampled_from([0.1, 0.02, 0.5, 0.03]),
                    "mix": MIXES,
                    "solution": solution(),
                }
            ),
            min_size=1,
            max_size=3,
        )
    )
    for i, c in enumerate(conditions):
        c["T"] += i  # tells the cases apart
    return {
        "cases": conditions,
        "floor": draw(st.sampled_from([None, None, 0.01, 0.05, 0.1, 0.3, 0.0, -2.0])),
        "positional_phase": draw(st.booleans()),
    }


def condition(c):
    from pymars.sampling import InputLaminarFlame

    return InputLaminarFlame(c["T"], c["P"], c["width"], **c["mix"])


def mixture(c):
    """Unburned state, set without the package."""
    gas = ct.Solution("h2o2.yaml")
    mix = c["mix"]
    if "reactants" in mix:
        W = dict(zip(gas.species_names, gas.molecular_weights))
        moles = {
            s: v / (W[s] if mix["composition_type"] == "mass" else 1.0)
            for s, v in mix["reactants"].items()
        }
        gas.TPX = c["T"], c["P"] * 101325.0, moles
    else:
        # moles of oxygen needed per mole of the fuel mixture (only H2 burns)
        fuel, ox = mix["fuel"], mix["oxidizer"]
        need = 0.5 * fuel["H2"] / sum(fuel.values())
        have = ox["O2"] / sum(ox.values())
        moles = {}
        for s, v in fuel.items():
            moles[s] = moles.get(s, 0.0) + mix["equivalence_ratio"] * v / sum(fuel.values()) / need
        for s, v in ox.items():
            moles[s] = moles.get(s, 0.0) + v / sum(ox.values()) / have
        gas.TPX = c["T"], c["P"] * 101325.0, moles
    return gas.T, gas.P, gas.Y.copy(), gas


def run_fake(case):
    from pymars.sampling import sample, sample_metrics
    from pymars.simulation import FlameSimulation

    floor = 0.05 if case["floor"] is None else case["floor"]
    kw = {} if case["floor"] is None else {"min_flame_speed": case["floor"]}
    cases = case["cases"]
    states = [mixture(c) for c in cases]

    def made(i):
        c = cases[i]
        s = c["solution"]
        rng = np.random.default_rng(s["seed"])
        T = c["T"] + s["rise"] * np.array(s["f"])
        return {
            "speed": s["speed"],
            "T": T,
            "Y": rng.random((len(T), 10)),
            "error": s["error"],
            "P": c["P"] * 101325.0,
        }

    def flame(gas, inlet):
        i = int(np.argmin([abs(c["T"] - gas.T) for c in cases]))
        return made(i)

    def inlet(flames, which):
        check(len(flames) == len(which), "{} flames were solved for {} cases", len(flames), len(which))
        for f, i in zip(flames, which):
            T, P, Y, gas = states[i]
            check(
                abs(f.inlet_state[0] - T) < 1e-6
                and abs(f.inlet_state[1] - P) < 1e-6 * P
                and np.abs(f.inlet_state[2] - Y).max() < 1e-8,
                "case {}: unburned state {} instead of {}",
                i,
                f.inlet_state,
                (T, P, Y),
            )
            check(
                abs(f.width - cases[i]["width"]) < 1e-12,
                "case {}: width {} instead of {}",
                i,
                f.width,
                cases[i]["width"],
            )
            check(f.solved is not None, "case {}: the flame was not solved", i)
            check(f.solved["refine_grid"], "case {}: solved without grid refinement", i)

    exists = [
        not c["solution"]["error"] and c["solution"]["speed"] > floor for c in cases
    ]
    want = [c["solution"]["speed"] if ok else 0.0 for c, ok in zip(cases, exists)]
    labels = {"flame" if all(exists) else "no flame"}
    if kw:
        labels.add("given minimum")
    every = list(range(len(cases)))
    for i, c in enumerate(cases):
        with bounds.replaced(flame=flame) as rec:
            sim = FlameSimulation(i, condition(c), "h2o2.yaml", **kw)
            sim.setup_case()
            got = sim.calculate()
            sim.clean()
        check(got == want[i], "calculate gives {} instead of {} (minimum {})", got, want[i], floor)
        inlet(rec.flames, [i])
        for what in ("run_case", "metric only", "sample"):
            with bounds.replaced(flame=flame) as rec:
                sim = FlameSimulation(i, condition(c), "h2o2.yaml", **kw)
                sim.setup_case()
                try:
                    if what == "run_case":
                        got = sim.run_case()
                    else:
                        got = sim.process_results(skip_data=what == "metric only")
                except RuntimeError as error:
                    check(not exists[i], "{} of case {} raises {}", what, i, error)
                    got = None
                sim.clean()
            if got is None:
                continue
            check(exists[i], "{}: a flame at {} (minimum {})", what, want[i], floor)
            inlet(rec.flames, [i])
            if what == "sample":
                got, rows = got
                f = made(i)
                verify(rows, f["T"], np.full(len(f["T"]), f["P"]), f["Y"])
            check(got == want[i], "{} gives {} instead of {}", what, got, want[i])
    conds = [condition(c) for c in cases]
    with bounds.replaced(flame=flame) as rec:
        got = sample_metrics("h2o2.yaml", [], flame_conditions=conds, **kw)
    check(
        np.array_equal(np.asarray(got), np.array(want)),
        "metrics {} instead of {} (minimum {})",
        got,
        want,
        floor,
    )
    inlet(rec.flames, every)
    with bounds.replaced(flame=flame) as rec:
        try:
            got, data = sample("h2o2.yaml", [], flame_conditions=conds, **kw)
        except RuntimeError as error:
            check(not all(exists), "sampling raises {}", error)
            got = None
    if got is not None:
        check(all(exists), "sampling gives {} though a flame is missing", got)
        check(np.array_equal(np.asarray(got), np.array(want)), "sampled metrics {}", got)
        inlet(rec.flames, every)
        data = np.asarray(data)
        check(len(data) == 20 * len(cases), "{} rows", len(data))
        for i in every:
            f = made(i)
            verify(data[20 * i : 20 * i + 20], f["T"], np.full(len(f["T"]), f["P"]), f["Y"])
    return Outcome(any(exists) or bool(kw), labels)


@st.composite
def real(draw):
    return {
        "T": float(draw(st.integers(300, 600))),
        "P": draw(st.sampled_from([0.3, 1.0, 3.0, 10.0])),
        "width": draw(st.sampled_from([0.02, 0.05, 0.1])),
        "mix": {
            "equivalence_ratio": draw(st.sampled_from([0.6, 0.8, 1.0, 1.5, 2.0, 3.0])),
            "fuel": {"H2": 1.0},
            "oxidizer": {"O2": 1.0, draw(st.sampled_from(["N2", "AR"])): draw(st.sampled_from([2.0, 3.76, 5.0]))},
        },
        "floor": draw(st.sampled_from([None, None, 0.2, 20.0])),
    }


def run_real(case):
    from pymars.simulation import FlameSimulation

    kw = {} if case["floor"] is None else {"min_flame_speed": case["floor"]}
    T, P, Y, gas = mixture(case)
    unburned = gas.TPX
    try:
        flame = ct.FreeFlame(gas, width=0.03)
        flame.set_refine_criteria(ratio=3, slope=0.06, curve=0.06)
        flame.solve(loglevel=0, auto=True)
    except ct.CanteraError:
        raise Inconclusive("the reference flame was not found")
    speed = float(flame.velocity[0])
    gas.TPX = unburned
    floor = case["floor"] or 0.05
    if abs(speed / floor - 1) < 0.1:
        raise Inconclusive("speed near the minimum")
    sim = FlameSimulation(0, condition(case), "h2o2.yaml", **kw)
    sim.setup_case()
    try:
        got, rows = sim.process_results()
    except RuntimeError:
        check(speed < floor, "no flame, expected one of {} m/s", speed)
        return Outcome(True, {"too slow"})
    check(speed > floor, "a flame of {} m/s is slower than {}", speed, floor)
    check(abs(got / speed - 1) < 0.06, "speed {} instead of {}", got, speed)
    f = sim.flame
    grid_T, grid_Y = np.array(f.T), np.array(f.Y).T
    check(abs(f.P / P - 1) < 1e-9, "flame pressure {} instead of {}", f.P, P)
    verify(rows, grid_T, np.full(len(grid_T), f.P), grid_Y)
    check(
        abs(grid_T[0] - T) < 1e-6 and abs(grid_T[-1] / flame.T[-1] - 1) < 0.1,
        "profile from {} to {}",
        grid_T[0],
        grid_T[-1],
    )
    # sampled states lie on the reference flame's profile
    order = np.maximum.accumulate(flame.T)
    for k in (5, 10, 15):
        near = [float(np.interp(rows[k, 0], order, flame.Y[j])) for j in (0, 5)]
        for j, y in zip((0, 5), near):
            check(
                abs(rows[k, 2 + j] - y) < 0.05 * max(flame.Y[j].max(), 1e-6) + 0.2 * abs(y),
                "row {}: mass fraction {} of {} instead of {}",
                k,
                rows[k, 2 + j],
                gas.species_names[j],
                y,
            )
    sim = FlameSimulation(0, condition(case), "h2o2.yaml", **kw)
    sim.setup_case()
    again = sim.calculate()
    check(abs(again / got - 1) < 1e-6, "speed {} alone, {} with sampling", again, got)
    return Outcome(True, {f"{case['P']} atm"})


SUITES = [
    Suite("profiles", fake, run_fake, quick=480, thorough=6000, hang=60),
    Suite("flames", real, run_real, quick=64, thorough=600, hang=120),
]
