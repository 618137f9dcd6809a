"""C22: failing simulations of candidates and of the starting model."""

import os

import numpy as np
from hypothesis import strategies as st

import cantera as ct

from lib import bounds, cheapsims as cs
from lib import problems as pb
from lib.harness import Inconclusive, Outcome, Suite, check, stand_in

PROPERTY = "C22"
RULE = (
    "hydrogen autoignition with integrator failures injected at random steps, step limits and "
    "mixtures or models that cannot ignite; flames and extinction curves whose solvers (replaced "
    "at the boundary to Cantera) fail or give speeds around, at and below the minimum; reductions "
    "by every method, with and without sensitivity analysis, over such flames and reactors "
    "compared with the same reduction over prescribed metrics that are zero for failing cases; "
    "non-trivial: a failure occurs"
)
ASSUMPTIONS = [
    "metrics of an error limit of 100 % or more admit failing candidates (C17)",
]


# -- autoignition -----------------------------------------------------------------
@st.composite
def ignition(draw):
    how = draw(st.sampled_from(["step", "step", "step", "inert", "lean", "model", "limit"]))
    return {
        "how": how,
        "kind": draw(st.sampled_from(["constant volume", "constant pressure"])),
        "T": float(draw(st.integers(1000, 1600))),
        "P": draw(st.sampled_from([0.5, 1.0, 10.0])),
        "fail": draw(st.floats(0.0, 1.5)),
        "end": draw(st.sampled_from([0.0, 0.0, 0.01])),
        "mix": draw(st.sampled_from([["H2", "O2"], ["N2"], ["AR"], ["O2"], ["H2"], ["H2", "N2"]])),
        "gone": draw(st.lists(st.sampled_from(["H", "O", "OH", "HO2", "H2O"]), min_size=1, max_size=3, unique=True)),
        "others": [draw(st.integers(0, 2)), draw(st.integers(0, 2))],
    }


def run_ignition(case):
    from pymars.sampling import InputIgnition, calculate_error, sample, sample_metrics
    from pymars.simulation import IgnitionSimulation

    how = case["how"]
    model = "h2o2.yaml"
    good = {"H2": 2.0, "O2": 1.0, "N2": 3.0}
    mix, max_steps, end = good, 10000, case["end"]
    if how == "limit":
        end = 0.0  # the number of steps is not limited with an end time
    if how == "inert":
        names = [n for n in case["mix"] if n != "O2"] or ["N2"]
        mix = {n: 1.0 for n in names}
    elif how == "lean":
        mix = {"H2": 0.01, "O2": 1.0, "N2": 3.76}
    elif how == "model":
        full = ct.Solution(model)
        keep = [s for s in full.species() if s.name not in case["gone"]]
        names = {s.name for s in keep}
        reactions = [
            r for r in full.reactions() if set(r.reactants) | set(r.products) <= names
        ]
        gas = ct.Solution(thermo="ideal-gas", kinetics="gas", species=keep, reactions=reactions)
        model = "small.yaml"
        gas.write_yaml(model)

    def inp(**kw):
        return InputIgnition(case["kind"], case["T"], case["P"], reactants=dict(mix), **kw)

    def fresh(**kw):
        sim = IgnitionSimulation(0, inp(end_time=end, **kw), model)
        sim.setup_case()
        return sim

    real_step = IgnitionSimulation._step
    labels = {how}
    fail_at = None
    if how in ("step", "limit"):
        count = [0]

        def counted(sim):
            count[0] += 1
            return real_step(sim)

        IgnitionSimulation._step = counted
        try:
            sim = fresh()
            delay = sim.calculate()
            ignites = count[0]
            count[0] = 0
            fresh().run_case()
            total = count[0]
        except RuntimeError:
            raise Inconclusive("healthy case fails") from None
        finally:
            IgnitionSimulation._step = real_step
        check(delay > 0, "healthy case does not ignite")
        fail_at = 1 + int(case["fail"] * ignites)
        if how == "limit":
            max_steps = fail_at
    before, after = case["others"]
    healthy = InputIgnition("constant volume", 1300.0, 1.0, reactants=good)
    if how == "model":
        before = after = 0
    bad = inp(end_time=end, max_steps=max_steps)
    cases = [healthy] * before + [bad] + [healthy] * after

    class failing:
        """Integrator failure at the given step of the bad case."""

        def __enter__(self):
            if how != "step":
                return

            def step(sim):
                if sim.properties == bad:
                    sim.made = getattr(sim, "made", 0) + 1
                    if sim.made == fail_at:
                        raise stand_in(ct.CanteraError("CVodes error encountered (injected)"))
                return real_step(sim)

            IgnitionSimulation._step = step

        def __exit__(self, *exc):
            IgnitionSimulation._step = real_step
            return False

    if how in ("step", "limit"):
        zero = fail_at <= ignites if how == "step" else fail_at < ignites
        raises = fail_at <= total if how == "step" else fail_at < total
    elif how == "model":
        zero = raises = None  # decided by comparison below
    else:
        zero = raises = True
    with failing():
        metrics = sample_metrics(model, cases)
    check(metrics.shape == (len(cases),), "metrics {}", metrics)
    value = metrics[before]
    if zero is None:
        zero = raises = value == 0.0
        labels.add("ignites" if not zero else "does not ignite")
    check(
        (value == 0.0) == bool(zero),
        "metric {} of a case that {}",
        value,
        "fails" if zero else "ignites",
    )
    others = np.delete(metrics, before)
    check(bool(np.all(others > 0)), "other cases are affected: {}", metrics)
    if zero:
        base = np.where(metrics > 0, metrics, 1e-4)
        err = calculate_error(base, metrics)
        check(err == 100.0, "error {} with a failing case", err)
    try:
        with failing():
            sample(model, cases)
        raised = False
    except RuntimeError:
        raised = True
    check(
        raised == bool(raises),
        "sampling of the starting model {} although the case {}",
        "fails" if raised else "goes on",
        "fails" if raises else "succeeds",
    )
    return Outcome(bool(zero or raises), labels | {"zero" if zero else "after ignition"})


# -- flames and stirred reactors ----------------------------------------------------
@st.composite
def boundary(draw):
    floor = draw(st.sampled_from([None, None, 0.0, 0.01, 0.05, 0.2, 1.0]))
    active = 0.05 if floor is None else floor
    flames = []
    for _ in range(draw(st.integers(0, 4))):
        kind = draw(st.sampled_from(["speed", "speed", "speed", "error"]))
        speed = draw(
            st.one_of(
                st.sampled_from([active, np.nextafter(active, 9), np.nextafter(active, -9), -1e-6]),
                st.sampled_from([0.0, -0.3, 1e-12, 0.04, 0.06, 0.4, 3.0]),
                st.floats(-1.0, 4.0),
            )
        )
        flames.append({"kind": kind, "speed": float(speed)})
    psr = [
        draw(st.sampled_from(["ok", "ok", "RuntimeError", "CanteraError"]))
        for _ in range(draw(st.integers(0 if flames else 1, 3)))
    ]
    return {
        "floor": floor,
        "flames": flames,
        "psr": psr,
        "threads": draw(st.sampled_from([1, 1, 1, 2])),
        "argument": draw(st.booleans()),
    }


def run_boundary(case):
    from pymars.sampling import sample, sample_metrics
    from pymars.simulation import FlameSimulation

    names = cs.write_models()["m2.yaml"]
    mix = {"H2": 1.0, "O2": 1.0}
    _, psr, flames = cs.conditions([0, len(case["psr"]), len(case["flames"])], mix)
    T = np.linspace(300.0, 2000.0, 41)
    Y = np.full((41, len(names)), 1.0 / len(names))

    def flame(gas, inlet):
        k = round(inlet[0] - 300.0)
        spec = case["flames"][k]
        return {"speed": spec["speed"], "T": T, "Y": Y, "error": spec["kind"] == "error"}

    def trace(gas, inlet):
        k = round(inlet[0] - 1300.0)
        if case["psr"][k] == "RuntimeError":
            raise stand_in(RuntimeError("PSR: failed to seed the burning branch"))
        if case["psr"][k] == "CanteraError":
            raise stand_in(ct.CanteraError("no convergence"))
        return bounds.curve(1e-4 * (k + 1), 1500.0, 3e-3, 1800.0 + k, 0.1, 2200.0 + k, Y[0])

    floor = case["floor"]
    active = 0.05 if floor is None else floor
    want = []
    failed = False
    for k, how in enumerate(case["psr"]):
        ok = how == "ok"
        want += [1e-4 * (k + 1), 1800.0 + k, 2200.0 + k] if ok else [0.0] * 3
        failed |= not ok
    for spec in case["flames"]:
        ok = spec["kind"] == "speed" and spec["speed"] > active
        want.append(spec["speed"] if ok else 0.0)
        failed |= not ok
    kw = {"num_threads": case["threads"]}
    if floor is not None or case["argument"]:
        kw["min_flame_speed"] = floor
    default = FlameSimulation.min_flame_speed
    with bounds.replaced(flame, trace):
        got = sample_metrics("m2.yaml", [], psr, flames, **kw)
        check(
            got.shape == (len(want),) and bool(np.all(got == np.array(want))),
            "metrics {} instead of {}",
            got,
            want,
        )
        try:
            metrics, _ = sample("m2.yaml", [], psr, flames, **kw)
        except RuntimeError:
            metrics = None
        check(
            (metrics is None) == failed,
            "sampling of the starting model {}",
            "fails" if metrics is None else "goes on",
        )
        if metrics is not None:
            check(bool(np.all(metrics == np.array(want))), "metrics {} instead of {}", metrics, want)
    check(FlameSimulation.min_flame_speed == default, "the default minimum was changed")
    labels = {"failure" if failed else "none"}
    labels.add("default minimum" if floor is None else "given minimum")
    return Outcome(failed, labels)


# -- reductions -------------------------------------------------------------------
@st.composite
def reduction(draw):
    out = draw(pb.sa_problem(paths=False, max_species=8))
    n_psr = draw(st.integers(0, 2))
    n_flame = draw(st.integers(0 if n_psr else 1, 2))
    names = pb.species_of(out)
    out["n"] = [0, n_psr, n_flame]
    total = 3 * n_psr + n_flame
    out["land"] = draw(pb.landscape(names, total))
    for k in range(3 * n_psr, total):
        out["land"]["base"][k] = draw(st.sampled_from([1.0, 0.5, 0.25, 0.0625, 2.0**-12, 1024.0]))
    if draw(st.integers(0, 2)) == 0:
        out["land"]["fail"].append([draw(st.integers(0, total - 1)), draw(st.sampled_from(names))])
    out["starting"] = draw(st.sampled_from(["ok", "ok", "ok", "fails"]))
    one = pb.net_state(names)
    out["states"] = [[draw(one)] for _ in range(n_psr + n_flame)]
    floors = [None, 0.0]
    if n_flame:
        smallest = min(out["land"]["base"][3 * n_psr :])
        floors += [smallest * f for f in (1 / 16, 0.5, 0.75, 0.9, 1.0, 0.99)]
    out["floor"] = draw(st.sampled_from(floors))
    out["reactant"] = out["targets"][0]
    out["error_style"] = draw(st.sampled_from(["error", "negative", "zero"]))
    out["limit"] = draw(st.sampled_from([1.0, 10.0, 25.0, 50.0, 80.0, 99.0]))
    if out["mode"] == "reduced":
        out["mode"] = "sa"
        out["gone"] = []
    return out


def floor_of(problem):
    return 0.05 if problem["floor"] is None else problem["floor"]


class Floored(pb.FakeSims):
    """Prescribed metrics, zero where the flame is too slow; no package code."""

    def metric(self, sim, kind):
        v = super().metric(sim, kind)
        if kind == "flame" and v <= floor_of(self.problem):
            return 0.0
        if kind == "psr" and np.any(v == 0.0):
            return np.zeros(3)
        if self.problem["starting"] == "fails" and self.complete(sim):
            return v * 0.0
        return v

    def complete(self, sim):
        return set(self.names(sim)) == set(pb.species_of(self.problem))


class Solvers(bounds.replaced):
    """The same metrics behind the package's own flame and reactor classes."""

    def __init__(self, problem):
        self.problem = problem
        self.log = []
        super().__init__(self.solve_flame, self.solve_psr)

    def state(self, gas, k):
        if not pb.set_state(gas, gas.species_names, self.problem["states"][k][0]):
            raise Inconclusive("no mass in a state")
        return gas.T, gas.Y.copy()

    def failing_start(self, gas):
        return self.problem["starting"] == "fails" and set(gas.species_names) == set(
            pb.species_of(self.problem)
        )

    def solve_flame(self, gas, inlet):
        p = self.problem
        self.log.append(tuple(gas.species_names))
        k = round(inlet[0] - 300.0)
        n_psr = p["n"][1]
        value = pb.metrics(p["land"], set(gas.species_names))[3 * n_psr + k]
        if self.failing_start(gas):
            value = 0.0
        T, Y = self.state(gas, n_psr + k)
        out = {"speed": value, "T": [T, T], "Y": [Y, Y]}
        if value == 0.0:
            if p["error_style"] == "error":
                out["error"] = True
            elif p["error_style"] == "negative":
                out["speed"] = -0.01
        return out

    def solve_psr(self, gas, inlet):
        p = self.problem
        self.log.append(tuple(gas.species_names))
        k = round(inlet[0] - 1000.0)
        values = pb.metrics(p["land"], set(gas.species_names))[3 * k : 3 * k + 3]
        if 0.0 in values or self.failing_start(gas):
            if p["error_style"] == "error":
                raise stand_in(ct.CanteraError("no convergence"))
            raise stand_in(RuntimeError("PSR: continuation did not reach the extinction turning point"))
        base = p["land"]["base"][3 * k : 3 * k + 3]
        T, Y = self.state(gas, k)
        return bounds.curve(
            values[0], T, 1.0, T * values[1] / base[1], 1.0, T * values[2] / base[2], Y
        )


def attempt(problem, world):
    try:
        return pb.run_problem(problem, world).model, world.log
    except RuntimeError:
        return "aborted", world.log


def run_reduction(case):
    case, gas = pb.prepare(case)
    for rows in case["states"]:
        for s in rows:
            s["P"] = 101325.0
    names = pb.species_of(case)
    here = os.getcwd()
    results = []
    for label, world in (("reference", Floored(case)), ("package", Solvers(case))):
        os.makedirs(label)
        os.chdir(label)
        if not os.path.isabs(case["file"]):
            os.makedirs(os.path.dirname(case["file"]) or ".", exist_ok=True)
            os.symlink(os.path.join(here, case["file"]), case["file"])
        got, log = attempt(case, world)
        results.append(got)
        made = [f for f in os.listdir(".") if f.startswith("reduced_")]
        os.chdir(here)
    want, got = results
    labels = {case["mode"], case["method"]}
    base = pb.metrics(case["land"], set(names))
    n_psr = case["n"][1]
    start_fails = case["starting"] == "fails" or any(
        v <= floor_of(case) for v in base[3 * n_psr :]
    )
    if start_fails:
        check(
            got == "aborted",
            "the starting model fails, but the run {}",
            "gave up" if got is None else "went on",
        )
        other = {s for s in log if set(s) != set(names)}
        check(not other, "candidates were evaluated although the starting model fails: {}", other)
        check(not made, "files {} written although the starting model fails", made)
        return Outcome(True, labels | {"starting model fails"})
    check(got != "aborted", "the run was aborted although the starting model succeeds")
    check(want != "aborted", "reference run was aborted")
    check((want is None) == (got is None), "gave up: expected {}, got {}", want is None, got is None)
    failing = False
    for s in {tuple(x) for x in log}:
        values = pb.metrics(case["land"], set(s))
        failing |= 0.0 in values or any(v <= floor_of(case) for v in values[3 * n_psr :])
    if failing:
        labels.add("a candidate fails")
    if got is None:
        return Outcome(failing, labels | {"gave up"})
    a, b = want.model.species_names, got.model.species_names
    check(a == b, "species {} instead of {}", b, a)
    check(
        abs(want.error - got.error) <= 1e-9 * max(1.0, abs(want.error)),
        "error {} instead of {}",
        got.error,
        want.error,
    )
    final = pb.metrics(case["land"], set(b))
    check(
        0.0 not in final and all(v > floor_of(case) for v in final[3 * n_psr :]),
        "the result fails: metrics {} with minimum {}",
        final,
        floor_of(case),
    )
    return Outcome(failing, labels)


SUITES = [
    Suite("ignition", ignition, run_ignition, 400, 5000, hang=90),
    Suite("boundary", boundary, run_boundary, 500, 8000, hang=60),
    Suite("reduction", reduction, run_reduction, 500, 6000, hang=120),
]
