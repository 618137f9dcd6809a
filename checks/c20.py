"""C20: ignition delays against independently integrated reactors."""

import h5py
import numpy as np
from hypothesis import strategies as st

import cantera as ct

from lib.harness import Inconclusive, Outcome, Suite, check

PROPERTY = "C20"
RULE = (
    "hydrogen (h2o2.yaml) and methane (gri30.yaml) mixtures, 850-1800 K, 0.2-40 atm, lean to "
    "rich and diluted, constant volume and constant pressure, integrated to steady state, to "
    "end times around, within the step of and beyond the ignition delay, and with step "
    "limits at, one below and above the number of steps needed, also with time steps so short "
    "that ignition needs about as many steps as the default or the given limit; the recorded profile and the three ways of obtaining "
    "the delay are compared with a separately set up reactor integrated at tight tolerances, "
    "with chemical equilibrium and with conservation laws; non-trivial: the mixture ignites"
)
ASSUMPTIONS = [
    "crossing times are compared up to 0.3 % and three times the effect of the default "
    "tolerances of the integration on a reactor of the same kind",
]

AR = "AR"


@st.composite
def case(draw):
    gri = draw(st.integers(0, 40)) == 7
    phi = draw(st.sampled_from([0.3, 0.5, 0.8, 1.0, 1.0, 1.5, 2.5]))
    diluent = draw(st.sampled_from(["N2", AR]))
    amount = draw(st.sampled_from([0.0, 3.76, 3.76, 8.0, 20.0]))
    if gri:
        model, phase = "gri30.yaml", "gri30"
        fuel = {"CH4": 1.0}
    else:
        model, phase = "h2o2.yaml", draw(st.sampled_from(["", "ohmech"]))
        fuel = {"H2": 1.0}
    need = 2.0 if gri else 0.5
    reactants = {k: v * phi for k, v in fuel.items()}
    reactants["O2"] = need
    if amount:
        reactants[diluent] = amount * need
    return {
        "model": model,
        "phase": phase,
        "kind": draw(st.sampled_from(["constant volume", "constant pressure"])),
        "T": draw(st.integers(1150 if gri else 850, 1800))
        + draw(st.sampled_from([0.0, 0.25, 0.7])),
        "P": round(10.0 ** draw(st.floats(-0.7, 1.6)), 3),
        "reactants": reactants,
        "end": draw(st.sampled_from([None, None, None, 0.4, 0.9, 1.1, 2.0, 10.0])),
        # end time within the step in which the mixture ignites
        "within": draw(st.one_of(st.sampled_from([0.0, 1.0]), st.floats(0.0, 1.0))),
        "idx": draw(st.sampled_from([0, 1, 12])),
        "path": draw(st.sampled_from(["", "out"])),
    }


def reference(case):
    """Time of the crossing, highest temperature and final time of a plain reactor."""
    gas = ct.Solution(case["model"])
    gas.TPX = case["T"], case["P"] * ct.one_atm, case["reactants"]
    start = gas.TPY
    volume = case["kind"] == "constant volume"
    cls = ct.IdealGasReactor if volume else ct.IdealGasConstPressureReactor
    # which temperature can be reached
    gas.equilibrate("UV" if volume else "HP")
    end_T = gas.T
    gas.TPY = start
    crossing, highest = cross(cls(gas, clone=True), case, end_T, 1e-10, 1e-18)
    margin = 0.0
    if crossing is not None:
        # what the tolerances of the integration contribute
        cls = ct.IdealGasMoleReactor if volume else ct.IdealGasConstPressureMoleReactor
        rough, _ = cross(cls(gas, clone=True), case, end_T, 1e-9, 1e-15)
        margin = 3e-3 * crossing
        if rough is not None:
            margin += 3.0 * abs(rough - crossing)
        if margin > 0.05 * crossing:
            raise Inconclusive("delay depends on the tolerances of the integration")
    return crossing, margin, highest, end_T, start


def cross(reactor, case, end_T, rtol, atol):
    net = ct.ReactorNet([reactor])
    net.rtol, net.atol = rtol, atol
    target = case["T"] + 400.0
    t0, T0, highest = 0.0, reactor.T, reactor.T
    for _ in range(30000):
        net.step()
        T = reactor.T
        highest = max(highest, T)
        if T >= target:
            return t0 + (net.time - t0) * (target - T0) / (T - T0), highest
        if abs(T - end_T) < 0.01 and net.time > 1e-3:
            break
        t0, T0 = net.time, T
    return None, highest


def simulate(case, end_time=0.0, max_steps=0):
    import os

    from pymars.sampling import InputIgnition
    from pymars.simulation import IgnitionSimulation

    inp = InputIgnition(
        case["kind"],
        case["T"],
        case["P"],
        end_time=end_time,
        max_steps=max_steps,
        reactants=dict(case["reactants"]),
        composition_type="mole",
    )
    if case["path"]:
        os.makedirs(case["path"], exist_ok=True)
    sim = IgnitionSimulation(
        case["idx"], inp, case["model"], phase_name=case["phase"], path=case["path"]
    )
    sim.setup_case()
    step = sim._step
    sim.count = 0

    def counted():
        sim.count += 1
        try:
            return step()
        except ct.CanteraError:
            # CVODES gives up now and then, even on burnt gases
            raise Inconclusive("integration failed") from None

    sim._step = counted
    return sim


def attempt(sim, **kw):
    try:
        return sim.run_case(**kw)
    except RuntimeError:
        return None


def read(sim):
    with h5py.File(sim.save_file, "r") as fh:
        g = fh["simulation"]
        return tuple(
            g[name][:] for name in ("time", "temperature", "pressure", "mass_fractions")
        )


def conserved(case, profile, start):
    """Conservation along the recorded profile."""
    times, T, P, Y = profile
    n = len(times)
    check(len(T) == n and len(P) == n and len(Y) == n, "profile lengths differ")
    check(times[0] == 0.0 and np.all(np.diff(times) > 0), "times do not increase from zero")
    gas = ct.Solution(case["model"])
    check(
        abs(T[0] - start[0]) < 1e-6 * start[0]
        and abs(P[0] - start[1]) < 1e-6 * start[1]
        and np.abs(Y[0] - start[2]).max() < 1e-9,
        "the first recorded state is not the initial state",
    )
    picks = sorted({int(k) for k in np.linspace(0, n - 1, 60)})
    h, u, rho, z = [], [], [], []
    for k in picks:
        check(abs(Y[k].sum() - 1) < 1e-5, "mass fractions sum to {}", Y[k].sum())
        check(Y[k].min() > -1e-5, "negative mass fraction {}", Y[k].min())
        gas.TPY = T[k], P[k], Y[k]
        h.append(gas.enthalpy_mass)
        u.append(gas.int_energy_mass)
        rho.append(gas.density)
        z.append([gas.elemental_mass_fraction(e) for e in gas.element_names])
    drift = np.ptp(np.array(z), axis=0).max()
    check(drift < 1e-4, "element mass fractions drift by {:.2e}", drift)
    if case["kind"] == "constant volume":
        check(np.ptp(u) < 2000.0, "internal energy drifts by {:.3g} J/kg", np.ptp(u))
        check(np.ptp(rho) < 1e-5 * rho[0], "density drifts from {} by {}", rho[0], np.ptp(rho))
    else:
        check(np.ptp(h) < 2000.0, "enthalpy drifts by {:.3g} J/kg", np.ptp(h))
        check(np.ptp(P) < 1e-5 * P[0], "pressure drifts from {} by {}", P[0], np.ptp(P))


def bracket(case, profile, delay, crossing, margin):
    times, T, _, _ = profile
    i = int(np.argmax(T >= case["T"] + 400.0))
    check(T[i] >= case["T"] + 400.0, "delay {} but the profile never rises 400 K", delay)
    check(
        abs(delay - times[i]) <= 1e-12 * times[i],
        "delay {} is not the time {} of the first point 400 K above the start",
        delay,
        times[i],
    )
    check(
        times[i - 1] - margin <= crossing <= times[i] + margin,
        "crossing at {:.6g} s is not between {:.6g} and {:.6g}",
        crossing,
        times[i - 1],
        times[i],
    )
    return i


def same(a, b, text):
    check(
        a is not None and b is not None and abs(a - b) <= 1e-9 * abs(b),
        "delay {}: {} instead of {}",
        text,
        a,
        b,
    )


def run(case):
    crossing, margin, highest, end_T, start = reference(case)
    labels = {case["kind"], case["model"]}
    if (crossing is None and highest > case["T"] + 398.0) or (
        abs(end_T - case["T"] - 400.0) < 5.0
    ):
        raise Inconclusive("largest rise close to 400 K")
    if crossing is not None and crossing > 50.0:
        raise Inconclusive("too slow")
    if case["end"] is not None:
        base = crossing if crossing is not None else 0.01
        return run_end(case, base * case["end"], crossing, margin, start, labels | {"end time"})
    sim = simulate(case)
    delay = attempt(sim)
    other = simulate(case).calculate()
    if crossing is None:
        check(delay is None, "delay {} although the rise stays below 400 K", delay)
        check(other == 0.0, "delay {} although the rise stays below 400 K", other)
        return Outcome(False, labels | {"no ignition"})
    if delay is None and sim.count >= 10000:
        # the default limit of steps is too small for this case
        sim = simulate(case, max_steps=50000)
        delay = attempt(sim)
        if delay is None:
            check(sim.count >= 50000, "gave up after {} of 50000 steps", sim.count)
            raise Inconclusive("no steady state within 50000 steps")
        n = len(read(sim)[0]) - 1
        check(n > 10000, "10000 steps are not enough, but {} are", n)
        labels = labels | {"more than 10000 steps"}
    check(delay is not None, "no ignition found, expected one at {:.4g} s", crossing)
    profile = read(sim)
    i = bracket(case, profile, delay, crossing, margin)
    conserved(case, profile, start)
    check(
        abs(profile[1][-1] - end_T) < 0.5,
        "integration ends at {:.2f} K, equilibrium is {:.2f} K",
        profile[1][-1],
        end_T,
    )
    same(sim.process_results(skip_data=True), delay, "from the recorded data")
    again, rows = sim.process_results()
    same(again, delay, "from the recorded data")
    check(np.shape(rows) == (20, 2 + len(profile[3][0])), "shape {}", np.shape(rows))
    same(other, delay, "without recording")
    stopped = simulate(case)
    same(stopped.run_case(stop_at_ignition=True), delay, "with stop at ignition")

    within = case.get("within", 0.5)
    end_time = profile[0][i - 1] + within * (profile[0][i] - profile[0][i - 1])
    if end_time > 0.0:
        inside = simulate(case, end_time=end_time)
        found = attempt(inside)
        brief = simulate(case, end_time=end_time).calculate()
        check(
            brief == (found or 0.0),
            "integrated to {}: delay {} with recording, {} without",
            end_time,
            found,
            brief,
        )
        if end_time > profile[0][i - 1]:
            same(found, delay, f"with the end time {end_time} in the step of ignition")
            same(inside.process_results(skip_data=True), delay, "from data that end at ignition")
        else:
            check(found is None, "delay {} although integration ends before", found)

    # number of steps
    n = len(profile[0]) - 1
    exact = simulate(case, max_steps=n)
    same(attempt(exact), delay, f"with the {n} steps needed")
    check(
        attempt(simulate(case, max_steps=n - 1)) is None,
        "{} steps are needed, {} are not refused",
        n,
        n - 1,
    )
    same(simulate(case, max_steps=i).calculate(), delay, f"with {i} steps to ignition")
    check(
        simulate(case, max_steps=i - 1).calculate() == 0.0,
        "ignition after {} steps found within {}",
        i,
        i - 1,
    )
    return Outcome(True, labels | {"steady state"})


def run_end(case, end_time, crossing, margin, start, labels):
    sim = simulate(case, end_time=end_time)
    delay = attempt(sim)
    other = simulate(case, end_time=end_time).calculate()
    profile = read(sim)
    times = profile[0]
    check(
        times[-1] >= end_time and (len(times) < 2 or times[-2] < end_time),
        "integration to {} ended at {} after {}",
        end_time,
        times[-1],
        times[-2:],
    )
    conserved(case, profile, start)
    if crossing is None or case["end"] < 0.95:
        # the last step may pass the end time by one step
        if crossing is not None and times[-1] > 0.99 * crossing:
            return Outcome(False, labels | {"last step close to ignition"})
        check(delay is None, "delay {} but integration ended at {}", delay, times[-1])
        check(other == 0.0, "delay {} but integration ended at {}", other, times[-1])
        return Outcome(crossing is not None, labels | {"ends before ignition"})
    check(delay is not None, "no ignition by {}, expected at {:.4g} s", end_time, crossing)
    bracket(case, profile, delay, crossing, margin)
    same(other, delay, "without recording")
    same(sim.process_results(skip_data=True), delay, "from the recorded data")
    return Outcome(True, labels | {"ends after ignition"})


@st.composite
def long_case(draw):
    c = draw(case())
    c["T"] = draw(st.integers(1000, 1500))
    c["model"], c["phase"] = "h2o2.yaml", draw(st.sampled_from(["", "ohmech"]))
    c["reactants"] = {"H2": draw(st.sampled_from([0.5, 1.0, 2.0])), "O2": 0.5, "N2": 1.88}
    c["steps"] = draw(st.integers(7000, 16000))
    c["limit"] = draw(st.sampled_from([0, 0, 8000, 12000, 20000, 20000]))
    return c


def run_long(case):
    """Time steps so short that ignition takes about as many steps as asked for."""
    crossing, margin, _, end_T, _ = reference(case)
    if crossing is None or abs(end_T - case["T"] - 400.0) < 5.0:
        raise Inconclusive("no ignition")
    limit = case["limit"] or 10000
    longest = crossing / case["steps"]
    sim = simulate(case, max_steps=case["limit"])
    sim.sim.max_time_step = longest
    delay = sim.calculate()
    labels = {"within limit" if delay else "beyond limit", f"limit {case['limit']}"}
    if delay:
        check(sim.count <= limit, "{} steps taken, {} allowed", sim.count, limit)
        check(
            abs(delay - crossing) <= margin + longest,
            "delay {} in steps of {:.3g}, expected {}",
            delay,
            longest,
            crossing,
        )
    else:
        if sim.count < limit and sim.sim.time < 0.5 * crossing:
            # changes within such short steps pass for a steady state
            raise Inconclusive("taken for steady")
        check(sim.count == limit, "gave up after {} steps, {} allowed", sim.count, limit)
        check(
            sim.sim.time <= crossing + margin, "no ignition by {}: {}", sim.sim.time, crossing
        )
    other = simulate(case, max_steps=case["limit"])
    other.sim.max_time_step = longest
    found = attempt(other, stop_at_ignition=True)
    if delay:
        same(found, delay, "with stop at ignition")
    else:
        check(found is None, "delay {} after {} steps of {}", found, other.count, limit)
    return Outcome(True, labels)


SUITES = [
    Suite("delay", case, run, 1500, 15000, hang=120),
    Suite("steps", long_case, run_long, 48, 800, hang=240),
]
