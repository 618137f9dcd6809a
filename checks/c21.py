"""C21: sampled states against a direct search of the profile."""

import h5py
import numpy as np
from hypothesis import strategies as st

import cantera as ct

from lib.harness import Outcome, Suite, check

PROPERTY = "C21"
RULE = (
    "random temperature profiles (coarse jumps over many fractions, slow rises, plateaus, "
    "overshoot beyond the final temperature, dips, temperatures on the fractions themselves, "
    "temperatures with many digits, 2 to 80 points, 1 to 12 species) sampled directly, sampled from a saved profile file, "
    "and profiles of real hydrogen ignitions; every row must be the point found by a direct "
    "search; non-trivial: at least two fractions are crossed in one "
    "step, or, for real ignitions, at least five different points sampled"
)
ASSUMPTIONS = ["a point within 1e-9 of the temperature rise of a fraction may count either way"]

N = 20


@st.composite
def profile(draw):
    n = draw(st.integers(2, 80))
    T0 = draw(st.sampled_from([300.0, 500.0, 1000.0, 1333.3, 287.15]))
    end = None
    rise = draw(st.sampled_from([1.0, 400.0, 1500.0, 1234.567, 2200.1]))
    if draw(st.booleans()):
        # any numbers, with all digits: rounding at the last fraction
        T0 = draw(st.integers(25000, 90000)) / 300
        end = draw(st.integers(32000, 120000)) / 30
        rise = end - T0
    style = draw(st.sampled_from(["random", "fractions", "jump", "overshoot", "even"]))
    kinds = st.floats(0.0, 1.0)
    if style == "random":
        f = sorted(draw(st.lists(kinds, min_size=n, max_size=n)))
    elif style == "fractions":
        f = sorted(
            k / N for k in draw(st.lists(st.integers(0, N), min_size=n, max_size=n))
        )
    elif style == "jump":
        k = draw(st.integers(1, n - 1))
        low = draw(st.floats(0.0, 0.3))
        high = draw(st.floats(0.7, 1.0))
        f = [low * i / k for i in range(k)] + [high] * (n - k)
    elif style == "even":
        f = [i / (n - 1) for i in range(n)]
    else:
        f = draw(st.lists(st.floats(-0.2, 1.4), min_size=n, max_size=n))
    f[0], f[-1] = 0.0, 1.0
    T = [T0 + rise * x for x in f]
    if end is not None:
        T[-1] = end
    if draw(st.booleans()):
        T[-1] = T0 + draw(st.floats(0.5, 1.0)) * rise
        if draw(st.booleans()):
            # final temperature is not the highest one, or held over points
            T[draw(st.integers(1, n - 1))] = T[-1]
    return {
        "T": T,
        "species": draw(st.integers(1, 12)),
        "seed": draw(st.integers(0, 999)),
        "saved": draw(st.booleans()),
        "idx": draw(st.sampled_from([0, 3, 17])),
        "order": draw(st.sampled_from(["C", "F"])),
    }


def search(T, k):
    """Indices a direct search may give for the k-th fraction."""
    rise = T[-1] - T[0]
    threshold = T[0] + k * rise / N if k < N else T[-1]
    eps = 1e-9 * rise + 4e-16 * T[-1] * 4
    found = set()
    for t in (threshold - eps, threshold + eps):
        hits = np.nonzero(T >= t)[0]
        if len(hits):
            found.add(int(hits[0]))
    exact = np.nonzero(T >= threshold)[0]
    if len(exact):
        found.add(int(exact[0]))
    return found


def verify(rows, T, P, Y):
    rows = np.asarray(rows)
    check(rows.shape == (N, 2 + Y.shape[1]), "shape {}", rows.shape)
    before = []
    for k in range(1, N + 1):
        choices = search(T, k)
        match = [
            i
            for i in choices
            if rows[k - 1, 0] == T[i]
            and rows[k - 1, 1] == P[i]
            and np.array_equal(rows[k - 1, 2:], Y[i])
        ]
        check(
            bool(match),
            "row {} has T={} P={}, expected point {} with T={}",
            k,
            rows[k - 1, 0],
            rows[k - 1, 1],
            sorted(choices),
            [T[i] for i in choices],
        )
        before.append(match[0])
    return len(set(before)) < N


def run(case):
    from pymars.simulation import IgnitionSimulation

    rng = np.random.default_rng(case["seed"])
    T = np.array(case["T"])
    n = len(T)
    P = 1e5 + rng.random(n)
    Y = np.array(rng.random((n, case["species"])), order=case["order"])
    labels = {"saved profile" if case["saved"] else "arrays"}
    if not case["saved"]:
        keep = T.copy(), P.copy(), Y.copy()
        rows = IgnitionSimulation._sample_profile(T, P, Y)
        check(
            all(np.array_equal(a, b) for a, b in zip(keep, (T, P, Y))),
            "the profile was modified",
        )
        return Outcome(verify(rows, T, P, Y), labels)
    times = np.cumsum(rng.random(n))
    with h5py.File(f"{case['idx']}.h5", "w") as fh:
        g = fh.create_group("simulation")
        for name, data in (
            ("time", times),
            ("temperature", T),
            ("pressure", P),
            ("mass_fractions", Y),
        ):
            g.create_dataset(name, data=data)
    sim = IgnitionSimulation(case["idx"], None, "none.yaml")
    delay, rows = sim.process_results()
    hits = np.nonzero(T >= T[0] + 400.0)[0]
    check(
        delay == (times[hits[0]] if len(hits) else 0.0),
        "delay {} from the saved profile, expected {}",
        delay,
        times[hits[0]] if len(hits) else 0.0,
    )
    check(sim.process_results(skip_data=True) == delay, "delay depends on skip_data")
    if len(hits):
        labels.add("ignites")
    return Outcome(verify(rows, T, P, Y), labels)


@st.composite
def ignition(draw):
    return {
        "kind": draw(st.sampled_from(["constant volume", "constant pressure"])),
        "T": float(draw(st.integers(1000, 1800))),
        "P": draw(st.sampled_from([0.5, 1.0, 5.0, 30.0])),
        "H2": draw(st.sampled_from([0.5, 1.0, 2.0])),
        "N2": draw(st.sampled_from([0.0, 3.76])),
        "factor": draw(st.sampled_from([0.0, 0.0, 1.01, 1.3, 3.0])),
    }


def run_real(case):
    from pymars.sampling import InputIgnition
    from pymars.simulation import IgnitionSimulation

    def new(end_time=0.0):
        inp = InputIgnition(
            case["kind"],
            case["T"],
            case["P"],
            end_time=end_time,
            reactants={"H2": case["H2"], "O2": 0.5, "N2": case["N2"]},
            composition_type="mole",
        )
        sim = IgnitionSimulation(0, inp, "h2o2.yaml")
        sim.setup_case()
        return sim

    sim = new()
    delay = sim.run_case()
    if case["factor"]:
        sim = new(delay * case["factor"])
        sim.run_case()
    _, rows = sim.process_results()
    with h5py.File("0.h5", "r") as fh:
        g = fh["simulation"]
        data = [g[name][:] for name in ("temperature", "pressure", "mass_fractions")]
    n = verify(rows, *data)
    gas = ct.Solution("h2o2.yaml")
    for row in rows:
        check(abs(row[2:].sum() - 1.0) < 1e-4, "mass fractions of a row sum to {}", row[2:].sum())
    check(len(row) == 2 + gas.n_species, "row length {}", len(row))
    points = len({tuple(row) for row in rows})
    labels = {"ignition", "several fractions in a step" if n else "one fraction per step"}
    return Outcome(points >= 5, labels)


SUITES = [
    Suite("profile", profile, run, 5000, 60000),
    Suite("ignition", ignition, run_real, 320, 3000),
]
