"""C16: results do not depend on what was run before in the same process."""

import os
import shutil

import cantera as ct
import numpy as np
from hypothesis import strategies as st

from lib import bounds, models
from lib import problems as pb
from lib import zygote
from lib.harness import Inconclusive, Outcome, Suite, Violation, check

PROPERTY = "C16"
RULE = (
    "sequence and reductions: up to five operations (reductions with every method, sensitivity "
    "analysis, combinations, samplings, metric evaluations, matrices, trimming, conversion in both "
    "directions, comparison, input parsing, exchange of the two model files) on two models, with "
    "optional arguments left at their defaults where possible; simulations: two or three samplings, "
    "metric evaluations and single flames with the package's own simulation classes, in which "
    "flames and extinction curves are prescribed and ignition is real, with and without minimum "
    "flame speeds; the sequence runs in one new process, and each operation again alone in another "
    "new process started with a copy of the files present before it; non-trivial: at least two "
    "operations"
)
ASSUMPTIONS = ["simulations are replaced by prescribed metrics, or at the solvers"]

OPS = ["reduce", "reduce", "reduce", "sample", "metrics", "matrix", "matrix", "trim", "convert",
       "back", "compare", "parse", "importance", "swap"]  # fmt: skip


@st.composite
def strategy(draw):
    problems = []
    for k in range(2):
        p = draw(pb.sa_problem(max_species=5, paths=False))
        p["file"] = f"model{k}.yaml"
        p["shape"] = ""
        if draw(st.booleans()):
            p["safe"] = []
        problems.append(p)
    if draw(st.booleans()):
        # the same problem under another name, or with other arguments
        twin = dict(problems[0], file="model1.yaml")
        twin["method"] = draw(st.sampled_from(pb.METHODS))
        twin["limit"] = max(draw(pb.limits), problems[0]["limit"])
        if "net" in twin and draw(st.booleans()):
            # other reactions between species of the same names
            n = len(twin["net"]["names"])
            turn = draw(st.integers(1, n - 1))
            edges = [
                [[(i + turn) % n for i in a], [(i + turn) % n for i in b], w]
                for a, b, w in twin["net"]["edges"]
            ]
            twin["net"] = dict(twin["net"], edges=edges)
            twin["method"] = draw(st.sampled_from([problems[0]["method"], twin["method"]]))
        problems[1] = twin
    ops = draw(
        st.lists(
            st.tuples(st.sampled_from(OPS), st.integers(0, 1)).map(list),
            min_size=1,
            max_size=5,
        )
    )
    if draw(st.booleans()):
        # the same operation on both models
        op = draw(st.sampled_from(OPS))
        k = draw(st.integers(0, 1))
        ops = [[op, k], *ops[: draw(st.integers(0, 2))], [op, 1 - k]]
    return {"problems": problems, "ops": ops}


@st.composite
def reductions(draw):
    """Reductions one after the other, mostly with species left for sensitivity analysis."""
    problems = []
    for k in range(2):
        modes = ["graph", "graph", "both", "sa"]
        p = draw(pb.sa_problem(max_species=5, paths=False, modes=modes))
        p["file"] = f"model{k}.yaml"
        p["shape"] = ""
        if p["mode"] == "graph" and draw(st.booleans()):
            p["upper"] = draw(st.sampled_from([0.05, 0.3, 1.0, 2.0]))
        if draw(st.booleans()):
            p["safe"] = []
        problems.append(p)
    a, b = draw(st.sampled_from([(0, 1), (1, 0)]))
    ops = [["reduce", a], ["reduce", b]]
    if draw(st.booleans()):
        ops.append(["reduce", a])
    return {"problems": problems, "ops": ops}


SPEEDS = [0.01, 0.03, 0.06, 0.2, 0.5, 3.0]


@st.composite
def simulations(draw):
    """Samplings and evaluations with the package's own simulation classes."""
    flames = draw(
        st.lists(
            st.fixed_dictionaries(
                {
                    "T": st.sampled_from([300.0, 400.0]),
                    "speed": st.sampled_from(SPEEDS),
                    "points": st.integers(2, 8),
                    "width": st.sampled_from([0.02, 0.1]),
                }
            ),
            min_size=1,
            max_size=3,
        )
    )
    psr = draw(
        st.lists(
            st.fixed_dictionaries(
                {
                    "T": st.sampled_from([300.0, 450.0]),
                    "tau": st.sampled_from([1e-5, 3e-5, 2e-4]),
                }
            ),
            max_size=2,
        )
    )
    ignition = draw(
        st.lists(
            st.fixed_dictionaries(
                {
                    "T": st.sampled_from([1400.0, 1500.0]),
                    "kind": st.sampled_from(["constant volume", "constant pressure"]),
                    "extra": st.sampled_from(
                        [{}, {}, {"end_time": 2e-3}, {"max_steps": 3000}]
                    ),
                }
            ),
            max_size=2,
        )
    )
    floors = draw(
        st.lists(st.sampled_from([None, None, 0.02, 0.05, 0.3]), min_size=2, max_size=3)
    )
    ops = []
    for k, floor in enumerate(floors):
        kinds = draw(st.sampled_from(["f", "f", "fp", "fi", "p", "i", "fpi"]))
        ops.append(
            {
                "what": draw(st.sampled_from(["metrics", "metrics", "sample", "flame object"])),
                "flames": flames if "f" in kinds else [],
                "psr": psr if "p" in kinds else [],
                "ignition": ignition[: k + 1] if "i" in kinds else [],
                "floor": floor,
                "threads": draw(st.sampled_from([1, 1, 1, 2])),
                "model": draw(st.sampled_from(["model0.yaml", "model0.yaml", "model1.yaml"])),
            }
        )
        if ops[-1]["what"] == "sample":
            # which of several failing cases is reported first is left open
            ops[-1]["threads"] = 1
    return {"ops": ops}


def numbers(x):
    return [repr(float(v)) for v in np.asarray(x, float).ravel()]


def describe(model):
    """Plain description of a model, exact."""
    return {
        "species": [[s.name, numbers(s.thermo.coeffs)] for s in model.species()],
        "reactions": [
            [r.equation, repr(models.reaction_data(r))] for r in model.reactions()
        ],
    }


def perform(job):
    """Run one operation in the current directory; returns plain data."""
    op = job["op"]
    if op == "simulate":
        return simulate(job)
    problem = job["problem"]
    if op == "swap":
        os.rename("model0.yaml", "other.yaml")
        os.rename("model1.yaml", "model0.yaml")
        os.rename("other.yaml", "model1.yaml")
        return None
    phase = pb.phase_of(problem)
    if op == "reduce":
        res = pb.run_problem(problem)
        if res.model is None:
            return "gave up"
        return {
            "model": describe(res.model.model),
            "error": repr(float(res.model.error)),
            "limbo": sorted(res.model.limbo_species),
            "name": os.path.basename(res.model.filename),
            "tried": [sorted(s) for s in pb.FakeSims.models_tried(res)],
        }
    if op in ("sample", "metrics"):
        from pymars.sampling import sample, sample_metrics

        ign, psr, flame = pb.conditions(problem)
        given = {"psr_conditions": psr, "flame_conditions": flame}
        given = {k: v for k, v in given.items() if v}
        with pb.FakeSims(problem):
            if op == "metrics":
                return numbers(
                    sample_metrics(problem["file"], ign, phase_name=phase, **given)
                )
            m, d = sample(problem["file"], ign, phase_name=phase, **given)
        return [numbers(m), np.asarray(d).shape, numbers(d)]
    gas = ct.Solution(problem["file"], phase)
    if op == "matrix":
        return [numbers(m) for m in pb.matrices_of(problem, gas)]
    if op == "importance":
        from pymars.drgep import get_importance_coeffs

        ms = pb.matrices_of(problem, gas, "DRGEP")
        out = get_importance_coeffs(gas.species_names, list(problem["targets"]), ms)
        return sorted((k, repr(float(v))) for k, v in out.items())
    if op == "trim":
        from pymars.reduce_model import trim

        free = [n for n in gas.species_names if n not in problem["targets"]]
        return describe(trim(problem["file"], free[:2], "new.yaml", phase_name=phase))
    if op == "convert":
        from pymars.tools import convert

        try:
            files = convert(problem["file"], path="converted")
        except NotImplementedError as exc:
            return type(exc).__name__
        return [[f, open(f).read()] for f in files]
    if op == "back":
        from pymars.tools import convert

        stem = problem["file"][:-5]
        parts = [f"converted/{stem}{e}" for e in (".inp", "_thermo.dat", "_transport.dat")]
        parts = [p if os.path.isfile(p) else None for p in parts]
        if parts[0] is None:
            return "no files"
        out = convert(parts[0], parts[1], parts[2], "again")
        return [out, describe(ct.Solution(out))]
    if op == "compare":
        from pymars.tools import compare_models

        other = ct.Solution(job["other"]["file"], pb.phase_of(job["other"]))
        return [bool(compare_models(gas, other)), bool(compare_models(gas, gas))]
    if op == "parse":
        from pymars.pymars import parse_inputs

        names = gas.species_names
        spec = {
            "model": problem["file"],
            "error": 5.0,
            "method": problem["method"],
            "targets": list(problem["targets"]),
            "phase-name": phase,
            "psr-conditions": [
                {
                    "temperature": 300.0,
                    "pressure": 1.0,
                    "reactants": {n: 1.0 for n in names[1:3]},
                }
            ],
        }
        if problem["safe"]:
            spec["retained-species"] = list(problem["safe"])
        return repr(parse_inputs(spec))
    raise ValueError(op)


def simulate(job):
    """Sampling or evaluation with prescribed flames and extinction curves."""
    from pymars import sampling
    from pymars.simulation import FlameSimulation

    mix = {"H2": 2.0, "O2": 1.0, "N2": 3.76}
    ign = [
        sampling.InputIgnition(c["kind"], c["T"], 1.0, reactants=mix, **c["extra"])
        for c in job["ignition"]
    ]
    psr = [sampling.InputPSR(c["T"] + k, 1.0, reactants=mix) for k, c in enumerate(job["psr"])]
    flames = [
        sampling.InputLaminarFlame(c["T"] + k, 1.0, c["width"], reactants=mix)
        for k, c in enumerate(job["flames"])
    ]

    def nearest(cases, T):
        return int(np.argmin([abs(c["T"] + k - T) for k, c in enumerate(cases)]))

    def flame(gas, inlet):
        c = job["flames"][nearest(job["flames"], gas.T)]
        T = np.linspace(c["T"], 2300.0, c["points"])
        Y = np.outer(np.linspace(1.0, 0.5, c["points"]), inlet[2])
        return {"speed": c["speed"], "T": T, "Y": Y}

    def trace(gas, inlet):
        tau = job["psr"][nearest(job["psr"], gas.T)]["tau"]
        return bounds.curve(tau, 1500.0, 10 * tau, 1900.0, 0.1, 2300.0, inlet[2])

    given = {"psr_conditions": psr, "flame_conditions": flames, "num_threads": job["threads"]}
    given = {k: v for k, v in given.items() if v}
    if job["floor"] is not None:
        given["min_flame_speed"] = job["floor"]
    with bounds.replaced(flame=flame, trace=trace):
        if job["what"] == "flame object":
            kw = {k: v for k, v in given.items() if k == "min_flame_speed"}
            out = []
            for k, c in enumerate(flames):
                sim = FlameSimulation(k, c, job["model"], **kw)
                sim.setup_case()
                out.append(numbers([sim.calculate()]))
            return out
        if job["what"] == "metrics":
            return numbers(sampling.sample_metrics(job["model"], ign, **given))
        m, d = sampling.sample(job["model"], ign, **given)
    return [numbers(m), np.asarray(d).shape, numbers(d)]


def run_simulations(case):
    zygote.start()
    os.makedirs("work")
    gas = ct.Solution("h2o2.yaml")
    gas.write_yaml("work/model0.yaml")
    # a second model without the reactions of argon and with other rates
    other = [r for r in gas.reactions() if "AR" not in r.reactants]
    for r in other:
        if r.reaction_type == "Arrhenius":
            r.rate = ct.ArrheniusRate(
                1.3 * r.rate.pre_exponential_factor,
                r.rate.temperature_exponent,
                r.rate.activation_energy,
            )
    ct.Solution(thermo="ideal-gas", kinetics="gas", transport_model="mixture-averaged",
                species=gas.species(), reactions=other).write_yaml("work/model1.yaml")  # fmt: skip
    return compare([dict(op, op="simulate") for op in case["ops"]])


def sequence(jobs):
    """Perform the jobs one after the other, keeping copies of the files before."""
    out = []
    for k, job in enumerate(jobs):
        shutil.copytree(".", f"../before{k}")
        out.append({"value": attempt(job)})
    return out


def attempt(job):
    """Operation or its failure, as data."""
    for d in ("converted", "again"):
        os.makedirs(d, exist_ok=True)
    try:
        return {"ok": perform(job), "files": sorted(models.tree("."))}
    except Inconclusive:
        raise
    except (Exception, SystemExit) as exc:  # noqa: BLE001
        from lib.harness import is_repo_failure

        if not is_repo_failure(exc):
            raise
        return {"fails": f"{type(exc).__name__}: {exc}"}


def run(case):
    zygote.start()
    os.makedirs("work")
    here = os.getcwd()
    os.chdir("work")
    for p in case["problems"]:
        try:
            pb.write_model(p)
        finally:
            os.chdir(here)
        os.chdir("work")
    os.chdir(here)
    jobs = []
    problems = list(case["problems"])
    for op, k in case["ops"]:
        jobs.append({"op": op, "problem": problems[k], "other": problems[1 - k]})
        if op == "swap":
            # the files change places
            a, b = problems
            problems = [dict(a, file=b["file"]), dict(b, file=a["file"])]
    return compare(jobs)


def compare(jobs):
    """Perform the jobs one after the other, and each alone."""
    here = os.getcwd()
    together = zygote.call(
        __name__, "sequence", jobs, os.path.join(here, "work"), os.path.join(here, "t.json")
    )
    settle(together)
    for k, job in enumerate(jobs):
        alone = zygote.call(
            __name__,
            "attempt",
            job,
            os.path.join(here, f"before{k}"),
            os.path.join(here, f"a{k}.json"),
        )
        settle(alone)
        first, second = together["value"][k]["value"], alone["value"]
        if first != second:
            check(
                False,
                "operation {} ({} on {}) after {} gives\n{}\nalone it gives\n{}",
                k,
                job["op"],
                job["problem"]["file"] if "problem" in job else job,
                [j["op"] for j in jobs[:k]] if "problem" in job else jobs[:k],
                str(first)[:1500],
                str(second)[:1500],
            )
    labels = {job.get("what", job["op"]) for job in jobs}
    for k, job in enumerate(jobs[:-1]):
        value = together["value"][k]["value"].get("ok")
        if job["op"] == "reduce" and isinstance(value, dict) and value["limbo"]:
            labels.add("limbo species before " + jobs[k + 1]["op"])
    if any("fails" in answer["value"] for answer in together["value"]):
        labels.add("an operation failed")
    return Outcome(len(jobs) > 1, labels)


def settle(answer):
    if "failure" in answer:
        if answer["type"] == "Violation":
            raise Violation(answer["failure"])
        if answer["inconclusive"]:
            raise Inconclusive("not decidable")
        raise RuntimeError(answer["failure"])


SUITES = [
    Suite("simulations", simulations, run_simulations, 160, 2500, hang=180),
    Suite("sequence", strategy, run, 560, 9000, hang=180),
    Suite("reductions", reductions, run, 300, 4000, hang=180),
]
