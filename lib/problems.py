"""Reduction problems with synthetic simulations, and a reference driver.

A problem couples a small mechanism with prescribed sampled states (what the
simulations of the starting model would return) and a prescribed dependence of
the simulated metrics on the set of species present (the landscape).  The real
drivers of the package run unchanged; only the public methods of the simulation
classes are replaced while a problem is being run.
"""

import os
from collections import namedtuple

import cantera as ct
import numpy as np
from hypothesis import strategies as st

from . import mechgen as mg
from .harness import Inconclusive, check, stand_in
from .models import load_ir, set_state

METHODS = ["DRG", "DRGEP", "PFA"]
NET_NAMES = [
    "A", "AB", "ABC", "B", "b", "C2H5", "C2H5OH", "D*", "E(S)", "F-x", "n-C4", "G1",
    "G10", "ox", "Y", "Z+", "M1", "2x",
]  # fmt: skip


# -- mechanisms --------------------------------------------------------------
def net_document(net):
    """Isomers of one composition that turn into each other; weights are rates."""
    base = mg.POOL["C2H4"]
    species = [
        {
            "name": n,
            "composition": {"C": 2, "H": 4},
            "thermo": base["thermo"],
            "transport": base["transport"],
        }
        for n in net["names"]
    ]
    seen = {}
    reactions = []
    for edge in net["edges"]:
        reac, prod, weight = edge
        eq = " + ".join(net["names"][i] for i in reac)
        eq += " => " + " + ".join(net["names"][i] for i in prod)
        entry = {"equation": eq, "rate-constant": {"A": weight, "b": 0.0, "Ea": 0.0}}
        key = (tuple(sorted(reac)), tuple(sorted(prod)))
        if key in seen:
            entry["duplicate"] = seen[key]["duplicate"] = True
        seen[key] = entry
        reactions.append(entry)
    phase = {
        "name": net.get("phase", "gas"),
        "thermo": "ideal-gas",
        "elements": ["C", "H"],
        "species": list(net["names"]),
        "kinetics": "gas",
        "reactions": "all" if reactions else "none",
        "state": {"T": 300.0, "P": 101325.0},
    }
    if net.get("transport"):
        phase["transport"] = "mixture-averaged"
    phases = [phase]
    if net.get("decoy"):
        phases = [
            dict(phase, name="decoy", species=list(net["names"])[:1], reactions="none"),
            phase,
        ]
    doc = {
        "units": {"length": "m", "quantity": "kmol", "time": "s"},
        "phases": phases,
        "species": species,
    }
    if reactions:
        doc["reactions"] = reactions
    return doc


@st.composite
def net(draw, min_species=3, max_species=9, flavour=None):
    names = draw(
        st.lists(
            st.sampled_from(NET_NAMES),
            min_size=min_species,
            max_size=max_species,
            unique=True,
        )
    )
    n = len(names)
    weights = [
        st.integers(1, 99),
        st.sampled_from([1, 2, 3, 4, 9, 19, 29, 47, 97, 98, 99]),
        st.sampled_from([1, 10, 100, 1000, 10000, 100000]),
        st.integers(0, 50).map(lambda k: round(10 ** (k / 10), 3)),
    ]
    if flavour == "steep":  # coefficients over many orders of magnitude
        weights = weights[2:]
    weight = draw(st.sampled_from(weights))
    edges = []
    # a backbone keeps most species connected
    for k in range(1, n):
        a = draw(st.integers(0, k - 1))
        if draw(st.integers(0, 9)) > 0:
            edges.append([[a], [k], draw(weight)])
    for _ in range(draw(st.integers(0, 2 * n))):
        kind = draw(st.integers(0, 4))
        a, b = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
        if kind <= 2:
            if a != b:
                edges.append([[a], [b], draw(weight)])
        else:
            c, d = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
            if not {a, b} & {c, d} and not (a == b and c == d):
                # second order: scaled so that it is comparable
                edges.append([[a, b], [c, d], draw(weight) * 80.0])
    out = {"names": names, "edges": edges}
    if draw(st.integers(0, 3)) == 0:
        out["phase"] = draw(st.sampled_from(["gas", "mix-1", "my gas"]))
        out["decoy"] = draw(st.booleans())
    return out


@st.composite
def net_state(draw, names):
    weights = {}
    for n in names:
        w = draw(st.sampled_from([1, 1, 1, 1, 2, 3, 10, 0.1, 0.01, 0.0]))
        weights[n] = float(w)
    if not any(weights.values()):
        weights[names[0]] = 1.0
    return {"T": 1000.0, "P": 101325.0, "Y": weights}


def source_document(problem):
    return (
        net_document(problem["net"]) if "net" in problem else mg.document(problem["ir"])
    )


def phase_of(problem):
    """Phase name to pass to the package (empty if the only phase is meant)."""
    if "net" in problem and problem["net"].get("decoy"):
        return problem["net"].get("phase", "gas")
    if problem.get("give_phase"):
        return (problem.get("net") or {}).get("phase", "gas")
    return ""


def species_of(problem):
    if "net" in problem:
        return list(problem["net"]["names"])
    return [mg.actual_name(problem["ir"], n) for n in problem["ir"]["sp"]]


# -- landscapes ----------------------------------------------------------------
@st.composite
def landscape(draw, names, n_metrics, flavour=None):
    """Metrics as a function of the set of removed species, exact in binary."""
    step = st.sampled_from([0, 0, 0, 1, 1, 2, 3, 4, 6, 8, 12, 16, 24, 32, -1, -2, -8])
    if flavour == "steep":
        step = st.sampled_from([1, 4, 8, 8, 12, 16, 16, 24, 32])
    out = {"base": [], "w": [], "pairs": [], "fail": []}
    for _ in range(n_metrics):
        out["base"].append(draw(st.sampled_from([1.0, 0.5, 2.0**-12, 1024.0, 2.0**-30])))
        out["w"].append({n: draw(step) for n in names})
    if draw(st.booleans()):
        out["w"] = [
            {n: (v if v < 16 else v // 8) for n, v in row.items()} for row in out["w"]
        ]
    for _ in range(draw(st.integers(0, 3))):
        c = draw(st.integers(0, n_metrics - 1))
        a, b = draw(st.sampled_from(names)), draw(st.sampled_from(names))
        out["pairs"].append([c, a, b, draw(st.integers(-24, 24))])
    for _ in range(draw(st.sampled_from([0, 0, 0, 1, 2]))):
        c = draw(st.integers(0, n_metrics - 1))
        out["fail"].append([c, draw(st.sampled_from(names))])
    return out


def metrics(land, present):
    """Metrics of a model with the given species (exactly representable)."""
    out = []
    for c, base in enumerate(land["base"]):
        total = sum(v for n, v in land["w"][c].items() if n not in present)
        for k, a, b, v in land["pairs"]:
            if k == c and a not in present and b not in present:
                total += v
        value = base * max(1, 64 + total) / 64
        if any(k == c and n not in present for k, n in land["fail"]):
            value = 0.0
        out.append(value)
    return out


def error_of(land, present):
    """Error in percent with respect to the metrics of the complete model."""
    worst = 0.0
    for m0, m in zip(land["base"], metrics(land, present)):
        if m == 0.0:
            return 100.0
        worst = max(worst, abs(m0 - m) / m0)
    return 100.0 * worst


limits = st.one_of(
    st.integers(0, 32).map(lambda k: 100.0 * k / 64),
    # slightly below an error that occurs
    st.tuples(st.integers(1, 32), st.sampled_from([1e-12, 1e-6, 0.002, 0.3])).map(
        lambda t: 100.0 * t[0] / 64 - t[1]
    ),
    st.sampled_from([0.0, 1.0, 5.0, 10.0, 30.0, 99.0, 100.0, 1000.0]),
)


@st.composite
def problem(
    draw,
    methods=METHODS,
    upper=None,
    max_species=9,
    phenomena=True,
    paths=True,
    overlap=True,
    min_species=3,
):
    out = {}
    flavour = draw(st.sampled_from([None, None, "steep"]))
    if draw(st.integers(0, 4)) > 0:
        out["net"] = draw(net(min_species, max_species, flavour))
        names = list(out["net"]["names"])
        one_state = net_state(names)
    else:
        out["ir"] = draw(
            mg.mechanism(
                min_species=min_species,
                max_species=max_species,
                min_reactions=2,
                max_reactions=9,
                transport=False,
            )
        )
        names = species_of(out)
        one_state = mg.state(names)
    out["give_phase"] = draw(st.booleans())
    if phenomena:
        counts = draw(
            st.sampled_from(
                [[1, 0, 0], [2, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 0], [1, 0, 1],
                 [2, 1, 1], [0, 1, 2]]
            )
        )  # fmt: skip
    else:
        counts = [1, 0, 0]
    out["n"] = counts
    out["states"] = [
        [draw(one_state) for _ in range(draw(st.integers(1, 2)))]
        for _ in range(sum(counts))
    ]
    if draw(st.integers(0, 5)) == 0:
        out["alike"] = draw(st.integers(1, 40))
    out["land"] = draw(
        landscape(names, counts[0] + 3 * counts[1] + counts[2], flavour)
    )
    out["targets"] = draw(
        st.lists(
            st.sampled_from(names), min_size=1, max_size=min(3, len(names)), unique=True
        )
    )
    rest = names if overlap else [n for n in names if n not in out["targets"]]
    out["safe"] = (
        draw(
            st.lists(st.sampled_from(rest), max_size=min(3, len(rest) // 2), unique=True)
        )
        if rest
        else []
    )
    out["limit"] = draw(limits)
    out["method"] = draw(st.sampled_from(methods))
    if upper == "maybe":
        out["upper"] = draw(
            st.sampled_from([None, 0.02, 0.05, 0.1, 0.2, 0.33, 0.5, 0.9, 1.0])
        )
    elif upper == "always":
        out["upper"] = draw(st.sampled_from([0.02, 0.05, 0.1, 0.2, 0.33, 0.5, 0.9, 1.0]))
    else:
        out["upper"] = None
    out["path"] = draw(st.sampled_from(["", "", "out", "ABS"])) if paths else ""
    out["file"] = "model.yaml"
    return out


@st.composite
def ladder(draw, methods=METHODS, upper=None, deepest=5):
    """Coefficients from the target spread over the thresholds of one level, where
    the first thresholds are too high and then one species after another goes."""
    out = draw(problem(methods, upper, paths=False, phenomena=False))
    out.pop("ir", None)
    names = draw(
        st.lists(st.sampled_from(NET_NAMES), min_size=4, max_size=9, unique=True)
    )
    n = len(names)
    level = draw(st.integers(2, deepest))
    edges = [[[0], [1], 1000.0]]
    steps = []
    for k in range(2, n):
        steps.append(
            draw(st.one_of(st.integers(1, 14), st.sampled_from([20, 40, 99])))
            + draw(st.sampled_from([0.5, 0.5, 0.25, 0.0]))
        )
        chained = draw(st.integers(0, 5)) == 0
        edges.append(
            [[0 if not chained else 1], [k], round(1000.0 * steps[-1] * 10.0**-level, 9)]
        )
    out["net"] = {"names": names, "edges": draw(st.permutations(edges))}
    out["states"] = [[{"T": 1000.0, "P": 101325.0, "Y": {m: 1.0 for m in names}}]]
    out["targets"] = [names[0]]
    out["safe"] = [names[1]] if draw(st.booleans()) else []
    cut = draw(st.sampled_from(sorted(steps)))
    out["land"] = {"base": [1.0], "pairs": [], "fail": [], "w": [{m: 0 for m in names}]}
    for m, step in zip(names[2:], steps):
        small = draw(st.sampled_from([0, 1, 2]))
        large = draw(st.sampled_from([16, 24, 40, 0]))
        out["land"]["w"][0][m] = small if step < cut else large
    out["limit"] = draw(st.sampled_from([5.0, 10.0, 12.5, 20.0, 0.0]))
    return out


# -- running the package --------------------------------------------------------
Evaluation = namedtuple("Evaluation", "kind idx mode species model")


class FakeSims:
    """Replace the simulations by a landscape while active; records evaluations.

    A metric of zero makes the data-collecting path raise, as the package's own
    simulations do for a starting model that fails.
    """

    METHODS = ("setup_case", "run_case", "calculate", "process_results", "clean")

    def __init__(self, problem):
        self.problem = problem
        self.log = []

    def names(self, sim):
        gas = ct.Solution(sim.model, sim.phase_name)
        if "net" in self.problem and self.problem["net"].get("decoy"):
            check(gas.name != "decoy", "a simulation uses another phase of the model")
        return gas.species_names

    def metric(self, sim, kind):
        names = set(self.names(sim))
        values = metrics(self.problem["land"], names)
        n = self.problem["n"]
        if kind == "ign":
            return values[sim.idx]
        if kind == "psr":
            return np.array(values[n[0] + 3 * sim.idx : n[0] + 3 * sim.idx + 3])
        return values[n[0] + 3 * n[1] + sim.idx]

    def rows(self, sim, kind):
        n = self.problem["n"]
        k = {"ign": 0, "psr": n[0], "flame": n[0] + n[1]}[kind] + sim.idx
        gas = ct.Solution(sim.model, sim.phase_name)
        out = []
        for s in self.problem["states"][k]:
            if not set_state(gas, gas.species_names, s):
                raise Inconclusive("no mass in a state")
            row = np.hstack([[gas.T, gas.P], gas.Y])
            # as many states as real simulations give, most of them alike
            alike = self.problem.get("alike", 0) if k == 0 and not out else 0
            out += [row] * (1 + alike)
        return np.array(out)

    def __enter__(self):
        from pymars import simulation

        self.saved = []
        for cls, kind in (
            (simulation.IgnitionSimulation, "ign"),
            (simulation.PSRSimulation, "psr"),
            (simulation.FlameSimulation, "flame"),
        ):
            for m in self.METHODS:
                self.saved.append((cls, m, cls.__dict__.get(m)))
            self.install(cls, kind)
        return self

    def install(self, cls, kind):
        world = self

        def note(sim, mode):
            world.log.append(
                Evaluation(kind, sim.idx, mode, tuple(world.names(sim)), sim.model)
            )

        def setup_case(sim):
            sim.save_file = None

        def value(sim):
            return world.metric(sim, kind)

        def run_case(sim, *args, **kwargs):
            v = value(sim)
            note(sim, "run")
            if np.any(np.asarray(v) == 0.0):
                raise stand_in(RuntimeError("starting model fails"))
            return v

        def calculate(sim):
            note(sim, "calculate")
            return value(sim)

        def process_results(sim, skip_data=False):
            return value(sim) if skip_data else (value(sim), world.rows(sim, kind))

        def clean(sim):
            pass

        for f in (setup_case, run_case, calculate, process_results, clean):
            setattr(cls, f.__name__, f)

    def __exit__(self, *exc):
        for cls, name, old in self.saved:
            if old is None:
                delattr(cls, name)
            else:
                setattr(cls, name, old)
        return False

    def models_tried(self):
        """Species sets of all candidates evaluated, in order, without repeats."""
        out = []
        for e in self.log:
            s = frozenset(e.species)
            if e.mode == "calculate" and (not out or out[-1] != s):
                out.append(s)
        return out


def conditions(problem):
    from pymars.sampling import InputIgnition, InputLaminarFlame, InputPSR

    n = problem["n"]
    names = species_of(problem)
    mix = {problem.get("reactant", names[0]): 1.0}
    return (
        [
            InputIgnition("constant volume", 1000.0 + k, 1.0, reactants=mix)
            for k in range(n[0])
        ],
        [InputPSR(1000.0 + k, 1.0, reactants=mix) for k in range(n[1])],
        [InputLaminarFlame(300.0 + k, 1.0, reactants=mix) for k in range(n[2])],
    )


def write_model(problem, where=None):
    """Write the model; invalid generated input is discarded."""
    path = where or problem["file"]
    if "net" in problem:
        mg.write_doc(net_document(problem["net"]), path)
        return ct.Solution(path, phase_of(problem))
    return load_ir(problem["ir"], path)


def out_dir(problem):
    p = problem.get("path", "")
    if p == "ABS":
        p = os.path.join(os.getcwd(), "absolute out")
    if p:
        os.makedirs(p, exist_ok=True)
    return p


def run_driver(problem, world):
    """Run the graph-based method of the problem; None if it gave up."""
    from pymars.drg import run_drg
    from pymars.drgep import run_drgep
    from pymars.pfa import run_pfa

    driver = {"DRG": run_drg, "DRGEP": run_drgep, "PFA": run_pfa}[problem["method"]]
    ign, psr, flame = conditions(problem)
    kwargs = {}
    if problem["upper"] is not None:
        kwargs["threshold_upper"] = problem["upper"]
    if problem.get("floor") is not None:
        kwargs["min_flame_speed"] = problem["floor"]
    with world:
        try:
            return driver(
                problem["file"],
                ign,
                psr,
                flame,
                problem["limit"],
                list(problem["targets"]),
                list(problem["safe"]),
                phase_name=phase_of(problem),
                path=out_dir(problem),
                **kwargs,
            )
        except SystemExit:
            return None


# -- reference driver -------------------------------------------------------------
def matrices_of(problem, gas, method=None):
    """Matrices of direct coefficients from the package, one per sampled state.

    The coefficients themselves are decided by C05-C07."""
    from pymars.drg import create_drg_matrix
    from pymars.drgep import create_drgep_matrix
    from pymars.pfa import create_pfa_matrix

    create = {
        "DRG": create_drg_matrix,
        "DRGEP": create_drgep_matrix,
        "PFA": create_pfa_matrix,
    }[method or problem["method"]]
    ref = ct.Solution(problem["file"], phase_of(problem))
    out = []
    for rows in problem["states"]:
        for s in rows:
            if not set_state(gas, gas.species_names, s):
                raise Inconclusive("no mass in a state")
            out.append(np.array(create((gas.T, gas.P, gas.Y.copy()), ref)))
    return out


def critical_values(matrices, targets, product):
    """Largest threshold at which each species is still selected.

    ``product`` False: the best bottleneck over paths from a target (DRG, PFA);
    True: the largest product of coefficients (DRGEP)."""
    n = len(matrices[0]) if matrices else 0
    best = [0.0] * n
    for m in matrices:
        m = [[float(x) for x in row] for row in m]
        val = [0.0] * n
        for t in targets:
            val[t] = 1.0 if product else float("inf")
        for _ in range(n + 1):
            changed = False
            for a in range(n):
                if val[a] > 0:
                    for b in range(n):
                        if a == b or m[a][b] <= 0:
                            continue
                        v = val[a] * m[a][b] if product else min(val[a], m[a][b])
                        if v > val[b]:
                            val[b] = v
                            changed = True
            if not changed:
                break
        best = [max(x, y) for x, y in zip(best, val)]
    return best


def selected(critical, names, threshold, targets, safe):
    keep = {n for n, v in zip(names, critical) if v >= threshold}
    return frozenset(keep | set(targets) | set(safe))


Sweep = namedtuple("Sweep", "kept error threshold steps levels")


def reference_sweep(problem, names, critical, decimal, max_steps=20000):
    """Outcome of the threshold sweep: Sweep, or None where it must give up.

    ``decimal``: thresholds k * 10**-m rounded once, otherwise accumulated."""
    land, limit = problem["land"], problem["limit"]
    targets, safe = problem["targets"], problem["safe"]
    top = max([v for v in critical if v != float("inf")], default=0.0)
    order = 5 if problem["method"] == "DRGEP" else 4
    threshold, increment = 0.01, 0.01
    steps = 0
    for level in range(2, order + 2):
        if decimal:
            threshold = increment = float(f"1e-{level}")
        last = level == order + 1  # allowed, not required, to be tried
        kept = selected(critical, names, threshold, targets, safe)
        error = error_of(land, kept)
        steps += 1
        if error > limit:
            threshold /= 10
            increment /= 10
            continue
        k = 1
        while True:
            if threshold > top:
                return Sweep(kept, error, threshold, steps, level if not last else -level)
            k += 1
            steps += 1
            if steps > max_steps:
                raise Inconclusive("too many thresholds")
            nxt = float(f"{k}e-{level}") if decimal else threshold + increment
            new = selected(critical, names, nxt, targets, safe)
            new_error = error_of(land, new)
            if new_error > limit:
                return Sweep(kept, error, threshold, steps, level if not last else -level)
            kept, error, threshold = new, new_error, nxt
    return None


def expected_outcomes(problem, names, critical, max_steps):
    """All outcomes the specification admits, as a list of Sweep or None.

    Differences in how thresholds are rounded, and whether the threshold equal
    to the lower limit is still tried, are left open."""
    out = []
    for decimal in (False, True):
        s = reference_sweep(problem, names, critical, decimal, max_steps)
        if s is not None and s.levels < 0:  # only at the lower limit
            out.append(None)
        out.append(s)
    return out


def ambiguous(problem, critical, matrices):
    """Could rounding of importances (products) change what is selected?"""
    if problem["method"] != "DRGEP":
        return False
    exact = {float(x) for m in matrices for x in m.ravel()} | {0.0, 1.0}
    for v in critical:
        if v in exact:  # a single coefficient, no product involved
            continue
        for s in (0.01, 0.001, 1e-4, 1e-5, 1e-6):
            k = v / s
            if 0.5 < k < 2000 and abs(k - round(k)) < 1e-9 * max(1.0, k):
                return True
    return False


# -- sensitivity analysis and combinations ----------------------------------------
def reference_sa(land, names, start, start_error, limbo, limit, kind, max_branches=300):
    """All species sets the specification admits as outcome of the analysis.

    Equally close species may be removed in any order.  Each outcome comes with
    the number of removals."""
    outcomes = {}
    budget = [max_branches]

    def induced(present, todo):
        return {s: error_of(land, present - {s}) for s in todo}

    def step(present, error, todo, errors, count):
        budget[0] -= 1
        if budget[0] < 0:
            raise Inconclusive("too many ties")
        if not todo or (kind == "greedy" and count and min(errors.values()) > limit):
            outcomes[frozenset(present)] = count
            return
        closest = min(abs(errors[s] - error) for s in todo)
        for s in todo:
            if abs(errors[s] - error) != closest:
                continue
            new = present - {s}
            new_error = error_of(land, new)
            if new_error > limit:
                outcomes[frozenset(present)] = count
                continue
            rest = [x for x in todo if x != s]
            new_errors = induced(new, rest) if kind == "greedy" else errors
            step(new, new_error, rest, new_errors, count + 1)

    step(
        frozenset(start),
        start_error,
        list(limbo),
        induced(frozenset(start), limbo),
        0,
    )
    return outcomes


@st.composite
def sa_problem(draw, **kwargs):
    """A problem with a way of applying sensitivity analysis.

    mode: graph (method only), sa (on the starting model), reduced (on a model
    from which species have been removed, with saved metrics of the original),
    both (method followed by sensitivity analysis)."""
    modes = kwargs.pop("modes", ["graph", "sa", "reduced", "both"])
    mode = draw(st.sampled_from(modes))
    upper = {"graph": "maybe", "both": "always"}.get(mode)
    out = draw(problem(upper=upper, **kwargs))
    out["mode"] = mode
    out["kind"] = draw(st.sampled_from(["initial", "greedy"]))
    if mode in ("sa", "reduced"):
        names = species_of(out)
        free = [n for n in names if n not in out["targets"] and n not in out["safe"]]
        out["gone"] = []
        if mode == "reduced" and free:
            out["gone"] = draw(
                st.lists(st.sampled_from(free), max_size=len(free) // 2, unique=True)
            )
        free = [n for n in free if n not in out["gone"]]
        out["limbo"] = (
            draw(st.lists(st.sampled_from(free), unique=True)) if free else []
        )
        # the order in which species are listed matters for ties only
        if draw(st.booleans()):
            out["limit"] = draw(st.sampled_from([25.0, 50.0, 75.0, 90.0]))
        start_error = error_of(out["land"], set(names) - set(out["gone"]))
        out["limit"] = max(out["limit"], start_error)
    out["shape"] = draw(st.sampled_from(["", "", "models/", "ABS"]))
    return out


def model_file(problem):
    shape = problem.get("shape", "")
    if shape == "ABS":
        shape = os.path.join(os.getcwd(), "given models") + "/"
    if shape:
        os.makedirs(shape, exist_ok=True)
    return shape + problem["file"]


Result = namedtuple("Result", "model log start inputs")


def run_problem(problem, world=None):
    """Run the problem as its mode says; the starting model has been written.

    Returns the package's ReducedModel (None if it gave up), the evaluations, the
    file started from, and the arguments before and after the call."""
    import copy

    from pymars.pymars import main
    from pymars.reduce_model import trim
    from pymars.sampling import sample
    from pymars.sensitivity_analysis import run_sa

    world = world or FakeSims(problem)
    mode = problem.get("mode", "graph")
    start = problem["file"]
    ign, psr, flame = conditions(problem)
    phase = phase_of(problem)
    targets, safe = list(problem["targets"]), list(problem["safe"])
    limbo = list(problem.get("limbo", []))
    before = copy.deepcopy((ign, psr, flame, targets, safe, limbo))
    got = None
    with world:
        if mode in ("sa", "reduced"):
            start_error = 0.0
            if mode == "reduced":
                floor = {"min_flame_speed": problem["floor"]} if problem.get("floor") else {}
                sample(start, ign, psr, flame, phase_name=phase, **floor)
                small = trim(start, list(problem["gone"]), start, phase_name=phase)
                start = os.path.join(os.path.dirname(start), "starting.yaml")
                small.write_yaml(start)
                start_error = error_of(problem["land"], set(small.species_names))
                phase = ""
                del world.log[:]
            protected = targets + [s for s in safe if s not in targets]
            given = {"species_limbo": limbo} if limbo else {}
            if problem.get("floor") is not None:
                given["min_flame_speed"] = problem["floor"]
            got = run_sa(
                start,
                start_error,
                ign,
                psr,
                flame,
                problem["limit"],
                protected,
                phase_name=phase,
                algorithm_type=problem["kind"],
                path=out_dir(problem),
                **given,
            )
        else:
            given = {
                "psr_conditions": psr,
                "flame_conditions": flame,
                "safe_species": safe,
                "phase_name": phase,
                "path": out_dir(problem),
                "upper_threshold": problem["upper"],
            }
            # arguments that are not needed are left at their defaults
            given = {k: v for k, v in given.items() if v}
            if problem.get("floor") is not None:
                given["min_flame_speed"] = problem["floor"]
            if mode == "both":
                given["run_sensitivity_analysis"] = True
                given["sensitivity_type"] = problem.get("kind", "greedy")
            try:
                got = main(
                    start,
                    problem["limit"],
                    ign,
                    method=problem["method"],
                    target_species=targets,
                    **given,
                )
            except SystemExit:
                got = None
    after = (ign, psr, flame, targets, safe, limbo)
    return Result(got, list(world.log), start, (before, after))


def prepare(problem):
    """Write the starting model under the name the problem asks for."""
    problem = dict(problem, file=model_file(problem))
    return problem, write_model(problem)
