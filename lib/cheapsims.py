"""Cheap stand-ins for the three simulation classes.

Metrics and sampled rows are fixed functions of the condition and of the model,
every run is noted in a log file (so that runs in other processes count), and the
autoignition stand-in writes an intermediate file as the real one does.
"""

import os
import time
import zlib

import cantera as ct
import numpy as np
from ruamel.yaml import YAML

from .harness import stand_in

ROWS = {"ign": 20, "psr": 3, "flame": 20}
METRICS = {"ign": 1, "psr": 3, "flame": 1}
KINDS = ("ign", "psr", "flame")


def _rng(kind, props, names):
    text = f"{kind} {props.temperature} {props.pressure} {' '.join(names)}"
    return np.random.default_rng(zlib.crc32(text.encode()))


def metric(kind, props, names):
    """Metrics of one case as a list."""
    rng = _rng(kind, props, names)
    scale = {"ign": 1e-4, "psr": 1.0, "flame": 2.0}[kind]
    return [float(x) for x in scale * (0.5 + rng.random(METRICS[kind]))]


def rows(kind, props, names):
    rng = _rng(kind + "rows", props, names)
    y = rng.random((ROWS[kind], len(names)))
    y /= y.sum(axis=1)[:, None]
    head = np.column_stack(
        [1000.0 + 1000.0 * rng.random(ROWS[kind]), np.full(ROWS[kind], props.pressure * 101325.0)]
    )
    return np.hstack([head, y])


def conditions(counts, mix, offset=0):
    """The first ``counts`` of a fixed sequence of cases."""
    from pymars.sampling import InputIgnition, InputLaminarFlame, InputPSR

    return (
        [
            InputIgnition("constant volume", 1000.0 + k + offset, 1.0 + k, reactants=mix)
            for k in range(counts[0])
        ],
        [InputPSR(1300.0 + k + offset, 2.0 + k, reactants=mix) for k in range(counts[1])],
        [InputLaminarFlame(300.0 + k + offset, 3.0 + k, reactants=mix) for k in range(counts[2])],
    )


def expected(counts, conds, names, failing=()):
    """Metrics and rows a sampling has to return."""
    m, r = [], []
    for kind, cases in zip(KINDS, conds):
        for k, case in enumerate(cases):
            values = metric(kind, case, names)
            if (kind, k) in failing:
                values = [0.0] * len(values)
            m += values
            r.append(rows(kind, case, names))
    return np.array(m), (np.vstack(r) if r else np.zeros((0, 0)))


class CheapSims:
    """While active, simulations are replaced.

    ``failing``: set of (kind, number); ``pauses``: seconds to sleep, by
    (kind, number), to change the order in which cases finish."""

    METHODS = ("setup_case", "run_case", "calculate", "process_results")

    def __init__(self, failing=(), pauses=None):
        self.failing = set(failing)
        self.pauses = pauses or {}
        self.log = os.path.join(os.path.abspath(os.getcwd()), "..", f"log{id(self)}")
        self.log = os.path.abspath(self.log)

    def runs(self):
        """The runs so far as (kind, number, mode); forgets them."""
        if not os.path.exists(self.log):
            return []
        with open(self.log) as fh:
            lines = [tuple(line.split()) for line in fh]
        os.remove(self.log)
        return [(k, int(i), mode) for k, i, mode in lines]

    def note(self, kind, idx, mode):
        fd = os.open(self.log, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
        os.write(fd, f"{kind} {idx} {mode}\n".encode())
        os.close(fd)
        pause = self.pauses.get((kind, idx), 0.0)
        if pause:
            time.sleep(pause)

    def __enter__(self):
        from pymars import simulation

        self.saved = []
        for cls, kind in (
            (simulation.IgnitionSimulation, "ign"),
            (simulation.PSRSimulation, "psr"),
            (simulation.FlameSimulation, "flame"),
        ):
            for m in self.METHODS:
                self.saved.append((cls, m, cls.__dict__.get(m)))
            self.install(cls, kind)
        return self

    def install(self, cls, kind):
        world = self

        def names(sim):
            return ct.Solution(sim.model, sim.phase_name).species_names

        def value(sim):
            values = metric(kind, sim.properties, names(sim))
            if (kind, sim.idx) in world.failing:
                values = [0.0] * len(values)
            return values[0] if len(values) == 1 else np.array(values)

        def setup_case(sim):
            if kind == "ign":
                sim.save_file = os.path.join(sim.path, f"{sim.idx}.h5")

        def run_case(sim, *args, **kwargs):
            world.note(kind, sim.idx, "sample")
            v = value(sim)
            if np.any(np.asarray(v) == 0.0):
                raise stand_in(RuntimeError("failing case"))
            if kind == "ign":
                with open(sim.save_file, "w") as fh:
                    fh.write(f"{sim.properties.temperature}")
            return v

        def calculate(sim):
            world.note(kind, sim.idx, "metric")
            return value(sim)

        def process_results(sim, skip_data=False):
            if kind == "ign":
                # what another case wrote into the same file would show here
                with open(sim.save_file) as fh:
                    props = sim.properties._replace(temperature=float(fh.read()))
                v = metric(kind, props, names(sim))[0]
            else:
                v, props = run_case(sim), sim.properties
            return v if skip_data else (v, rows(kind, props, names(sim)))

        for f in (setup_case, run_case, calculate, process_results):
            setattr(cls, f.__name__, f)

    def __exit__(self, *exc):
        for cls, name, old in self.saved:
            if old is None:
                delattr(cls, name)
            else:
                setattr(cls, name, old)
        self.runs()
        return False


def write_models():
    """Models m1, m2, ... in the working directory; returns their species.

    m4 has the phase "gas" after another one."""
    base = ct.Solution("h2o2.yaml")
    out = {}
    for k, names in enumerate(
        (["H2", "O2"], ["H2", "O2", "H2O", "OH"], ["H2", "H", "O2", "O", "OH"]), 1
    ):
        gas = ct.Solution(
            thermo="ideal-gas",
            kinetics="gas",
            species=[base.species(n) for n in names],
            reactions=[],
            name="gas",
        )
        gas.write_yaml(f"m{k}.yaml")
        out[f"m{k}.yaml"] = names
    with open("m2.yaml") as fh:
        doc = YAML(typ="safe").load(fh)
    other = dict(doc["phases"][0], name="other", species=["H2", "H2O"])
    doc["phases"].insert(0, other)
    with open("m4.yaml", "w") as fh:
        YAML(typ="safe").dump(doc, fh)
    out["m4.yaml"] = out["m2.yaml"]
    return out
