"""C23: extinction curves of stirred reactors against independent reactors."""

import numpy as np
from hypothesis import strategies as st

import cantera as ct

from lib import bounds
from lib.harness import Inconclusive, Outcome, Suite, check, stand_in

PROPERTY = "C23"
RULE = (
    "curves: hydrogen, syngas and methane mixtures, diluted and undiluted, 300-900 K, 0.3-30 atm; "
    "steady balances at the sampled points, an independent transient reactor at points of the "
    "branch and 2 % above and below the extinction residence time, choice of the sampled points; "
    "boundary: generated curves and failures behind the package's simulation, metric and sampling "
    "functions; non-trivial: an extinction point was found, or the boundary case has several "
    "reactors or a failing one"
)
ASSUMPTIONS = [
    "extinction within 0.5 s of residence time, where the burning branch is entered",
    "the closest point is the one of the traced branch, by difference or by ratio of times",
]


class Transient:
    """Adiabatic constant-pressure reactor with constant residence time."""

    def __init__(self, model, inlet):
        self.gas = ct.Solution(model)
        self.inlet = inlet
        self.model = model
        self.upstream = ct.Solution(model)
        self.upstream.TPY = inlet

    def network(self, T, Y, tau):
        self.gas.TPY = T, self.inlet[1], np.maximum(Y, 0.0)
        up = ct.Reservoir(self.upstream, clone=False)
        down = ct.Reservoir(self.upstream, clone=False)
        reactor = ct.IdealGasConstPressureReactor(self.gas, clone=False)
        flow = reactor.mass / tau
        ct.MassFlowController(up, reactor, mdot=flow)
        ct.MassFlowController(reactor, down, mdot=flow)
        net = ct.ReactorNet([reactor])
        net.max_steps = 20000
        return reactor, net

    def run(self, T, Y, tau, times):
        """Temperature after ``times`` residence times, starting from T, Y."""
        reactor, net = self.network(T, Y, tau)
        net.rtol, net.atol = 1e-7, 1e-15
        try:
            net.advance(times * tau)
        except ct.CanteraError:
            raise Inconclusive("reference reactor")
        return reactor.T

    def steady(self, T, Y, tau):
        """Temperature of a steady state found from T, Y (stable or not), or 0."""
        reactor, net = self.network(T, Y, tau)
        net.rtol, net.atol = 1e-8, 1e-16
        try:
            net.solve_steady()
        except ct.CanteraError:
            return 0.0
        return reactor.T


MIXTURES = {
    "h2o2.yaml": [{"H2": 1.0}],
    "gri30.yaml": [{"CH4": 1.0}, {"H2": 1.0, "CO": 1.0}, {"CH4": 1.0, "H2": 0.5}],
}


@st.composite
def curve(draw):
    model = draw(st.sampled_from(["h2o2.yaml"] * 7 + ["gri30.yaml"]))
    fuel = draw(st.sampled_from(MIXTURES[model]))
    ox = {"O2": 1.0}
    dil = draw(st.sampled_from(["N2", "AR", "", "N2"]))
    if dil:
        ox[dil] = draw(st.sampled_from([1.0, 2.0, 3.76, 6.0]))
    return {
        "model": model,
        "T": float(draw(st.integers(300, 900))),
        "P": draw(st.sampled_from([0.3, 1.0, 1.0, 3.0, 10.0, 30.0])),
        "phi": draw(st.sampled_from([0.5, 0.7, 1.0, 1.4, 2.0])),
        "fuel": fuel,
        "oxidizer": ox,
        "where": [draw(st.floats(0.0, 1.0)) for _ in range(2)],
        "full": draw(st.integers(0, 3)) == 0,
    }


def inlet_of(case):
    gas = ct.Solution(case["model"])
    gas.TP = case["T"], case["P"] * 101325.0
    gas.set_equivalence_ratio(case["phi"], case["fuel"], case["oxidizer"])
    return (gas.T, gas.P, gas.Y.copy())


def balances(gas, inlet, tau, T, Y, what):
    W = gas.molecular_weights
    gas.TPY = inlet
    h, cp = gas.enthalpy_mass, gas.cp_mass
    check(abs(Y.sum() - 1) < 1e-6, "{}: mass fractions add up to {}", what, Y.sum())
    check(Y.min() > -1e-7, "{}: mass fraction {}", what, Y.min())
    gas.set_unnormalized_mass_fractions(Y)
    gas.TP = T, inlet[1]
    made = tau * gas.net_production_rates * W / gas.density
    off = np.abs(Y - inlet[2] - made)
    scale = 1e-5 + 1e-9 * tau * (gas.creation_rates + gas.destruction_rates) * W / gas.density
    check(
        (off < scale).all(),
        "{}: {} does not balance: {} left over",
        what,
        gas.species_names[int(np.argmax(off / scale))],
        off.max(),
    )
    dh = (gas.enthalpy_mass - h) / cp
    check(abs(dh) < 0.02, "{}: enthalpy off by {} K", what, dh)


def run_curve(case):
    from pymars.psr_solver import trace_extinction_curve
    from pymars.sampling import InputPSR
    from pymars.simulation import PSRSimulation

    inlet = inlet_of(case)
    T_in = inlet[0]
    gas = ct.Solution(case["model"])
    other = Transient(case["model"], inlet)
    burnt = ct.Solution(case["model"])
    burnt.TPY = inlet
    burnt.equilibrate("HP")
    if burnt.T < T_in + 500:
        raise Inconclusive("hardly burning")
    gas.TPY = inlet
    try:
        found = trace_extinction_curve(gas)
    except RuntimeError as error:
        T = other.run(burnt.T, burnt.Y, 0.4, 100)
        check(T < T_in + 300, "no curve ({}), but a reactor burns at 0.4 s with {} K", error, T)
        return Outcome(False, {"not burning"})
    points, branch = found["points"], np.asarray(found["branch"])
    tau_ext, T_ext, Y_ext = points["extinction"]
    if tau_ext > 0.3:
        raise Inconclusive("extinction beyond the start of the branch")
    for key in ("extinction", "log_mid", "near_0.1s"):
        balances(gas, inlet, *points[key], key)
    # the branch: starts burning, comes down to the extinction point
    upper = branch[: int(np.argmin(branch[:, 0])) + 1]
    check(upper[-1, 0] == tau_ext and upper[-1, 1] == T_ext, "extinction is not the smallest time")
    check((np.diff(upper[:, 0]) < 0).all(), "residence times do not decrease along the branch")
    check(
        (np.abs(np.diff(np.log(upper[:, 0]))) < 0.75).all(),
        "gap in the branch: {}",
        np.abs(np.diff(np.log(upper[:, 0]))).max(),
    )
    check(upper[0, 0] > 0.4, "branch starts at {} s", upper[0, 0])
    T_mid, Y_mid = points["log_mid"][1:]
    for f in case["where"]:
        i = int(f * (len(upper) - 3))
        tau, T = upper[i]
        if tau < 1.05 * tau_ext:
            continue
        # an abrupt change of the residence time may put out the transient reactor,
        # and the steady state may be an unstable one
        refs = []
        for method in (lambda x: other.run(*x, tau, 80), lambda x: other.steady(*x, tau)):
            for start in ((T_mid, Y_mid), (T_ext, Y_ext)):
                if not refs or abs(refs[-1] - T) > 1.0 + 2e-3 * abs(T - T_in):
                    refs.append(method(start))
        check(
            abs(refs[-1] - T) < 1.0 + 2e-3 * abs(T - T_in),
            "at {} s: {} K, reactors {} K",
            tau,
            T,
            refs,
        )
    # extinction: burning 2 % above, extinguishing 2 % below; the state at the
    # turning point lies between the burning and the unstable branch
    above = other.run(T_ext, Y_ext, 1.02 * tau_ext, 150)
    if above < T_ext:
        above = other.steady(T_mid, Y_mid, 1.02 * tau_ext)
    check(
        above > T_ext,
        "no burning steady state ({} K) 2 % above extinction ({} s, {} K)",
        above,
        tau_ext,
        T_ext,
    )
    for below in (
        other.run(T_ext, Y_ext, 0.98 * tau_ext, 400),
        other.steady(T_mid, Y_mid, 0.98 * tau_ext),
    ):
        check(
            below < T_ext - 0.05 * (T_ext - T_in),
            "reactor still burns ({} K) 2 % below extinction ({} s, {} K)",
            below,
            tau_ext,
            T_ext,
        )
    # sampled points
    near = points["near_0.1s"]
    mid = points["log_mid"]
    for what, (tau, T, _), aim in (
        ("near 0.1 s", near, 0.1),
        ("midpoint", mid, float(np.sqrt(tau_ext * near[0]))),
    ):
        hits = [i for i in range(len(upper)) if upper[i, 0] == tau and upper[i, 1] == T]
        check(bool(hits), "{}: {} s, {} K is not on the branch", what, tau, T)
        best = {
            int(np.argmin(np.abs(upper[:, 0] - aim))),
            int(np.argmin(np.abs(np.log(upper[:, 0] / aim)))),
        }
        check(
            hits[0] in best,
            "{}: {} s taken for {} s, others {}",
            what,
            tau,
            aim,
            [upper[i, 0] for i in best],
        )
    labels = {case["model"], f"{case['P']} atm"}
    # the simulation class uses the same curve
    condition = InputPSR(
        case["T"],
        case["P"],
        equivalence_ratio=case["phi"],
        fuel=case["fuel"],
        oxidizer=case["oxidizer"],
    )
    sim = PSRSimulation(0, condition, case["model"])
    sim.setup_case()
    metrics, rows = sim.process_results()
    want = [tau_ext, mid[1], near[1]]
    check(np.allclose(metrics, want, rtol=1e-6, atol=0), "metrics {} instead of {}", metrics, want)
    want_rows = np.array([[p[1], inlet[1], *p[2]] for p in (points["extinction"], mid, near)])
    check(
        np.shape(rows) == want_rows.shape and np.allclose(rows, want_rows, rtol=1e-6, atol=1e-9),
        "sampled states differ from the points",
    )
    again = sim.calculate()
    check(np.allclose(again, want, rtol=1e-6, atol=0), "metrics of a second run {}", again)
    if case["full"]:
        gas.TPY = inlet
        more = 300 if case["model"] == "h2o2.yaml" else 60
        full = trace_extinction_curve(
            gas, stop_at_extinction=False, max_steps=len(branch) + more
        )
        for key in points:
            check(
                np.allclose(full["points"][key][0], points[key][0], rtol=1e-6)
                and np.allclose(full["points"][key][1], points[key][1], rtol=1e-6),
                "full march: {} at {} instead of {}",
                key,
                full["points"][key][:2],
                points[key][:2],
            )
        after = full["branch"][len(upper) :]
        check(len(after) >= 20, "full march stops after {} more points", len(after))
        check((after[:, 0] > tau_ext).all(), "a smaller residence time beyond extinction")
        check(after[len(after) // 2 :, 1].max() < T_ext, "beyond extinction: hotter than at it")
        labels.add("beyond extinction")
    return Outcome(True, labels)


@st.composite
def fake(draw):
    n = draw(st.integers(1, 4))
    times = st.sampled_from([1e-7, 3.3e-6, 1e-4, 0.02, 0.1, 0.4, 1.0])
    temps = st.floats(400.0, 3000.0)
    mixes = st.one_of(
        st.fixed_dictionaries(
            {
                "reactants": st.dictionaries(
                    st.sampled_from(["H2", "O2", "N2", "AR"]),
                    st.sampled_from([0.5, 1.0, 2.0]),
                    min_size=1,
                    max_size=3,
                ),
                "composition_type": st.sampled_from(["mole", "mass"]),
            }
        ),
        st.fixed_dictionaries(
            {
                "equivalence_ratio": st.sampled_from([0.5, 1.0, 2.5]),
                "fuel": st.just({"H2": 1.0}),
                "oxidizer": st.just({"O2": 1.0, "N2": 3.76}),
            }
        ),
    )
    return {
        "cases": [
            {
                "T": float(draw(st.integers(300, 900))) + i / 8,
                "P": draw(st.sampled_from([0.5, 1.0, 20.0, 2.2])),
                "mix": draw(mixes),
                "points": [[draw(times), draw(temps)] for _ in range(3)],
                "error": draw(st.sampled_from([""] * 4 + ["RuntimeError", "CanteraError"])),
                "dirty": draw(st.booleans()),
            }
            for i in range(n)
        ],
        "seed": draw(st.integers(0, 999)),
    }


def run_fake(case):
    from checks.c28 import mixture
    from pymars.sampling import InputPSR, sample, sample_metrics
    from pymars.simulation import PSRSimulation

    cases = case["cases"]
    states = [mixture(c)[:3] for c in cases]
    rng = np.random.default_rng(case["seed"])
    Y = rng.random((len(cases), 3, 10))

    def trace(gas, inlet):
        i = int(np.argmin([abs(c["T"] - gas.T) for c in cases]))
        c = cases[i]
        if c["dirty"]:
            gas.TPX = 1800.0, 2e5, "AR:1"  # the solver uses the gas for its own purposes
        if c["error"]:
            raise stand_in((RuntimeError if c["error"] == "RuntimeError" else ct.CanteraError)("none"))
        (t0, T0), (t1, T1), (t2, T2) = c["points"]
        return {
            "branch": np.array([[t2, T2], [t1, T1], [t0, T0]]),
            "points": {
                "extinction": (t0, T0, Y[i, 0]),
                "log_mid": (t1, T1, Y[i, 1]),
                "near_0.1s": (t2, T2, Y[i, 2]),
            },
        }

    def condition(c):
        return InputPSR(c["T"], c["P"], **c["mix"])

    def inlets(rec, which):
        check(len(rec.traces) == len(which), "{} curves for {} reactors", len(rec.traces), len(which))
        for (inlet, args, kw), i in zip(rec.traces, which):
            T, P, y = states[i]
            check(
                abs(inlet[0] - T) < 1e-6
                and abs(inlet[1] - P) < 1e-6 * P
                and np.abs(inlet[2] - y).max() < 1e-8,
                "reactor {}: inlet {} instead of {}",
                i,
                inlet,
                (T, P, y),
            )

    def metric(i):
        c = cases[i]
        if c["error"]:
            return [0.0, 0.0, 0.0]
        return [c["points"][0][0], c["points"][1][1], c["points"][2][1]]

    def rows(i):
        return np.array(
            [[c_T, states[i][1], *Y[i, k]] for k, (_, c_T) in enumerate(cases[i]["points"])]
        )

    for i, c in enumerate(cases):
        with bounds.replaced(trace=trace) as rec:
            sim = PSRSimulation(i, condition(c), "h2o2.yaml")
            sim.setup_case()
            got = [list(sim.calculate()) for _ in range(2)]
            check(got == [metric(i)] * 2, "calculate gives {} instead of {}", got, metric(i))
            outcomes = []
            for what in ("run", "metric", "sample"):
                try:
                    if what == "run":
                        outcomes.append(list(sim.run_case()))
                    elif what == "metric":
                        outcomes.append(list(sim.process_results(skip_data=True)))
                    else:
                        m, data = sim.process_results()
                        outcomes.append(list(m))
                        check(
                            np.shape(data) == (3, 12) and np.allclose(data, rows(i), rtol=1e-12, atol=0),
                            "sampled states {}",
                            data,
                        )
                except RuntimeError:
                    outcomes.append(None)
            sim.clean()
        want = None if c["error"] else metric(i)
        check(outcomes == [want] * 3, "runs give {} instead of {}", outcomes, want)
        inlets(rec, [i] * 5)
    conds = [condition(c) for c in cases]
    every = list(range(len(cases)))
    flat = [x for i in every for x in metric(i)]
    with bounds.replaced(trace=trace) as rec:
        got = list(sample_metrics("h2o2.yaml", [], conds))
    check(got == flat, "metrics {} instead of {}", got, flat)
    inlets(rec, every)
    failing = any(c["error"] for c in cases)
    with bounds.replaced(trace=trace) as rec:
        try:
            got, data = sample("h2o2.yaml", [], conds)
        except RuntimeError:
            check(failing, "sampling fails")
            got = None
    if got is not None:
        check(not failing, "sampling gives {} though a curve is missing", got)
        check(list(got) == flat, "sampled metrics {} instead of {}", got, flat)
        want = np.vstack([rows(i) for i in every])
        check(np.shape(data) == want.shape and np.allclose(data, want, rtol=1e-12, atol=0), "states")
        inlets(rec, every)
    return Outcome(len(cases) > 1 or failing, {"failing" if failing else "found"})


SUITES = [
    Suite("curves", curve, run_curve, quick=200, thorough=4000, hang=120),
    Suite("boundary", fake, run_fake, quick=400, thorough=4000, hang=60),
]
