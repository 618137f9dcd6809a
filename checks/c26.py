"""C26: the command line against calls of the library with the same settings."""

import os
import re
import shutil
import subprocess
import sys

import yaml
from hypothesis import strategies as st

import cantera as ct

from lib import harness
from lib import problems as pb
from lib.harness import Outcome, Suite, check

PROPERTY = "C26"
RULE = (
    "random reduction problems with prescribed simulations written as input files and given to "
    "the program (function and module entry, long and short options, output directories, thread "
    "numbers, Chemkin models) and to the library: files written, simulations made (conditions, "
    "phase, minimum flame speed, candidate species, output directory) and process pools asked "
    "for must agree; conversions in both directions likewise; a few complete runs in separate "
    "processes; non-trivial: the model was reduced, or files were converted"
)
ASSUMPTIONS = ["simulations are replaced by prescribed metrics except in the complete runs"]

SAFE_NAMES = {"b": "BB", "2x": "X2", "Z+": "ZP", "n-C4": "NC4", "ox": "OX", "M1": "MM", "F-x": "FX"}


def renamed(x):
    if isinstance(x, dict):
        return {SAFE_NAMES.get(k, k): renamed(v) for k, v in x.items()}
    if isinstance(x, list):
        return [renamed(v) for v in x]
    if isinstance(x, str):
        return SAFE_NAMES.get(x, x)
    return x


class Recording(pb.FakeSims):
    """Prescribed simulations that note what they were asked for."""

    def __init__(self, problem):
        super().__init__(problem)
        self.calls = []
        self.pools = []

    def metric(self, sim, kind):
        self.calls.append(
            (
                kind,
                sim.idx,
                properties(sim.properties),
                sim.phase_name,
                sim.path,
                getattr(sim, "min_flame_speed", None) if kind == "flame" else None,
                os.path.basename(sim.model),
                tuple(self.names(sim)),
            )
        )
        return super().metric(sim, kind)

    def __enter__(self):
        import multiprocessing

        world = self

        class Pool:
            def __init__(self, processes=None, *args, **kwargs):
                world.pools.append(processes)

            def map(self, f, jobs, *args, **kwargs):
                return [f(j) for j in jobs]

            imap = imap_unordered = map

            def starmap(self, f, jobs, *args, **kwargs):
                return [f(*j) for j in jobs]

            def close(self):
                pass

            join = terminate = close

            def __enter__(self):
                return self

            def __exit__(self, *exc):
                return False

        self.real_pool = multiprocessing.Pool
        multiprocessing.Pool = Pool
        return super().__enter__()

    def __exit__(self, *exc):
        import multiprocessing

        multiprocessing.Pool = self.real_pool
        return super().__exit__(*exc)


@st.composite
def case(draw):
    out = draw(pb.sa_problem(modes=["graph", "sa", "both", "both"], paths=False, max_species=8))
    names = pb.species_of(out)
    out["shape"] = ""
    few = st.lists(st.sampled_from(names), min_size=1, max_size=2, unique=True)
    out["mixtures"] = []
    for k in range(sum(out["n"])):
        e = {
            "temperature": 1000.0 + draw(st.integers(0, 50)),
            "pressure": draw(st.sampled_from([1.0, 2, 0.5, 20.0])),
        }
        if k < out["n"][0]:
            e["kind"] = draw(st.sampled_from(["constant volume", "constant pressure"]))
            if draw(st.booleans()):
                e["end-time"] = draw(st.sampled_from([1.0, 0.01]))
            if draw(st.booleans()):
                e["max-steps"] = draw(st.sampled_from([100, 20000]))
        elif k >= out["n"][0] + out["n"][1] and draw(st.booleans()):
            e["width"] = draw(st.sampled_from([0.02, 0.3]))
        if draw(st.booleans()):
            e["reactants"] = {s: 1.0 for s in draw(few)}
            if draw(st.booleans()):
                e["composition-type"] = draw(st.sampled_from(["mole", "mass"]))
        else:
            e["equivalence-ratio"] = draw(st.sampled_from([1.0, 0.5, 2]))
            e["fuel"] = {s: 1.0 for s in draw(few)}
            e["oxidizer"] = {s: 1.0 for s in draw(few)}
        out["mixtures"].append(e)
    out["sa_upper"] = draw(st.sampled_from([None, 0.05, 0.3]))
    out["give_type"] = draw(st.booleans())
    out["floor"] = draw(st.sampled_from([None, None, 0.0, 0.2, 3]))
    out["out"] = draw(st.sampled_from(["", "", "out", "out/deep"]))
    out["threads"] = draw(st.sampled_from([None, None, "1", "2", "3", "bare"]))
    out["style"] = draw(st.integers(0, 7))
    out["entry"] = draw(st.sampled_from(["function", "module"]))
    out["chemkin"] = "net" in out and draw(st.integers(0, 3)) == 0
    if out["chemkin"]:
        out = renamed(out)
        out["net"].pop("decoy", None)
        out["net"].pop("phase", None)
        out["give_phase"] = False
        out["net"]["transport"] = draw(st.booleans())
        out["ext"] = draw(st.sampled_from([".inp", ".inp", ".dat", ".mech", ".txt"]))
    else:
        out["ext"] = draw(st.sampled_from([".yaml", ".yaml", ".yaml", ".yml"]))
    return out


def specification(case):
    n = case["n"]
    spec = {"model": case["file"], "error": case["limit"] or 1.0}
    for key, part in (
        ("autoignition-conditions", case["mixtures"][: n[0]]),
        ("psr-conditions", case["mixtures"][n[0] : n[0] + n[1]]),
        ("laminar-flame-conditions", case["mixtures"][n[0] + n[1] :]),
    ):
        if part:
            spec[key] = part
    if case["safe"]:
        spec["retained-species"] = list(case["safe"])
    if pb.phase_of(case):
        spec["phase-name"] = pb.phase_of(case)
    if case["mode"] in ("graph", "both"):
        spec["method"] = case["method"]
        spec["targets"] = list(case["targets"])
    if case["mode"] != "graph":
        spec["sensitivity-analysis"] = True
        if case["give_type"]:
            spec["sensitivity-type"] = case["kind"]
    upper = case["upper"] if case["mode"] != "sa" else case["sa_upper"]
    if upper:
        spec["upper-threshold"] = upper
    if case["floor"] is not None:
        spec["min-flame-speed"] = case["floor"]
    return spec


def conditions(case):
    from pymars.sampling import InputIgnition, InputLaminarFlame, InputPSR

    n = case["n"]
    out = ([], [], [])
    for k, e in enumerate(case["mixtures"]):
        which = 0 if k < n[0] else 1 if k < n[0] + n[1] else 2
        cls = (InputIgnition, InputPSR, InputLaminarFlame)[which]
        out[which].append(cls(**{a.replace("-", "_"): v for a, v in e.items()}))
    return out


def properties(props):
    """Text of a condition without the ways of writing an empty part."""
    out = []
    for name, value in zip(props._fields, props):
        if isinstance(value, dict):
            value = sorted(value.items())
        out.append(f"{name}={value or None}")
    return ", ".join(out)


def library(case, model, threads, extra=None):
    from pymars.pymars import main
    from pymars.tools import convert

    if case["chemkin"]:
        model = convert(model, *extra, case["out"])
    mixture = []
    for e in case["mixtures"]:
        for part in ("fuel", "oxidizer", "reactants"):
            mixture += [s for s in e.get(part, {}) if s not in mixture]
    graph = case["mode"] in ("graph", "both")
    targets = list(case["targets"]) if graph else []
    safe = list(case["safe"])
    safe += [s for s in mixture if s not in safe and s not in targets]
    ign, psr, flame = conditions(case)
    sa = case["mode"] != "graph"
    upper = case["upper"] if graph else case["sa_upper"]
    if sa and not upper:
        upper = 0.1
    return main(
        model,
        case["limit"] or 1.0,
        ign,
        psr,
        flame,
        method=case["method"] if graph else "",
        target_species=targets,
        safe_species=safe,
        phase_name=pb.phase_of(case),
        run_sensitivity_analysis=sa,
        upper_threshold=upper,
        sensitivity_type=case["kind"] if case["give_type"] else "initial",
        path=case["out"],
        num_threads=threads,
        min_flame_speed=case["floor"],
    )


def command(entry, argv):
    """Run the program as its user does; True if it ended regularly."""
    from pymars import __main__ as program
    from pymars.pymars import pymars

    if entry == "function":
        return pymars(list(argv))
    old = sys.argv
    sys.argv = ["pymars", *argv]
    try:
        return program.main()
    finally:
        sys.argv = old


def tree(top="."):
    """Files below a directory with contents, dates blanked."""
    out = {}
    for d, _, files in os.walk(top):
        for f in files:
            path = os.path.relpath(os.path.join(d, f), top)
            if f.endswith(".log"):
                continue
            with open(os.path.join(d, f), "rb") as fh:
                text = fh.read()
            text = re.sub(rb"(?m)^date:.*$", b"date:", text)
            out[path] = re.sub(rb"(?m)^! *(Date|Written|Created|Generated).*$", b"!", text)
    return out


def compare(a, b, what):
    check(
        sorted(a) == sorted(b),
        "{}: files {} from the command line, {} from the library",
        what,
        sorted(a),
        sorted(b),
    )
    for name in sorted(a):
        check(a[name] == b[name], "{}: file {} differs", what, name)


def in_dir(path, out, prepare, act):
    here = os.getcwd()
    os.makedirs(path)
    os.chdir(path)
    try:
        if out:
            os.makedirs(out)
        prepare()
        return act()
    finally:
        os.chdir(here)


def run(case):
    case = dict(case, file="model" + case["ext"])
    extra = (None, None)
    files = []
    if case["chemkin"]:
        from pymars.soln2ck import write

        pb.write_model(case, "source.yaml")
        made = write(ct.Solution("source.yaml"), "made.inp")
        for name, new in zip(made, (case["file"], "thermo.dat", "tran.dat")):
            if os.path.exists(name):
                os.rename(name, new)
                files.append(new)
        extra = (
            "thermo.dat" if "thermo.dat" in files else None,
            "tran.dat" if "tran.dat" in files else None,
        )
    else:
        pb.write_model(case, case["file"])
        files.append(case["file"])
    spec = specification(case)
    threads = {None: 1, "bare": 0}.get(case["threads"], None)
    if threads is None:
        threads = int(case["threads"])
    argv = ["--input" if case["style"] & 1 else "-i", "input.yaml"]
    if case["out"]:
        argv = argv + (["--path=" + case["out"]] if case["style"] & 2 else ["--path", case["out"]])
    if case["threads"] is not None:
        option = ["--num_threads"] + ([case["threads"]] if case["threads"] != "bare" else [])
        argv = argv + option if case["style"] & 4 or case["threads"] == "bare" else option + argv
    if case["chemkin"]:
        for flag, name in zip(("--thermo", "--transport"), extra):
            if name:
                argv = [flag, name] + argv
    here = os.getcwd()

    def prepare():
        for name in files:
            shutil.copy(os.path.join(here, name), name)
        with open("input.yaml", "w") as fh:
            yaml.safe_dump(spec, fh, sort_keys=False)

    results = []
    for which in ("cli", "lib"):
        world = Recording(case)

        def act():
            with world:
                try:
                    if which == "cli":
                        command(case["entry"], argv)
                    else:
                        got.append(library(case, case["file"], threads, extra))
                    status = "ended"
                except SystemExit:
                    status = "gave up"
            return status, tree()

        got = []
        status, files_written = in_dir(which, case["out"], prepare, act)
        results.append((status, files_written, world, got))
    (s1, f1, w1, _), (s2, f2, w2, got) = results
    text = " ".join(argv)
    check(s1 == s2, "{}: the program {}, the library {}", text, s1, s2)
    a, b = w1.calls, w2.calls
    for x, y in zip(a, b):
        check(x == y, "{}: simulation {} instead of {}", text, x, y)
    check(len(a) == len(b), "{}: {} simulations instead of {}", text, len(a), len(b))
    check(w1.pools == w2.pools, "{}: processes {} instead of {}", text, w1.pools[:3], w2.pools[:3])
    compare(f1, f2, text)
    labels = {case["mode"], "threads: " + str(case["threads"]), case["entry"]}
    if case["chemkin"]:
        labels.add("Chemkin model")
        check(os.path.join(case["out"], "model.yaml") in f1, "converted model is missing")
    if s2 != "ended":
        return Outcome(False, labels | {"gave up"})
    n = len(pb.species_of(case))
    name = os.path.normpath(os.path.join(case["out"], f"reduced_{got[0].model.n_species}.yaml"))
    if got[0].model.n_species < n:
        check(name in f1, "{} was not written: {}", name, sorted(f1))
        in_file = ct.Solution(os.path.join("cli", name)).species_names
        check(in_file == got[0].model.species_names, "the file has species {}", in_file)
    return Outcome(got[0].model.n_species < n, labels)


# -- conversion --------------------------------------------------------------------
@st.composite
def conversions(draw):
    net = renamed(draw(pb.net(2, 6)))
    net.pop("decoy", None)
    net.pop("phase", None)
    net["transport"] = draw(st.booleans())
    return {
        "net": net if draw(st.integers(0, 9)) else None,
        "out": draw(st.sampled_from(["", "out", "out/deep"])),
        "stem": draw(st.sampled_from(["mech", "my-model", "a.b"])),
        "dir": draw(st.sampled_from(["", "given"])),
        "short": draw(st.booleans()),
        "entry": draw(st.sampled_from(["function", "module"])),
        "back_out": draw(st.sampled_from(["", "back"])),
        "use_transport": draw(st.booleans()),
    }


def run_conversion(case):
    from pymars.tools import convert

    here = os.getcwd()
    source = os.path.join(case["dir"], case["stem"] + ".yaml")
    if case["net"] is None:
        ct.Solution("h2o2.yaml").write_yaml("source.yaml")
    else:
        pb.write_model({"net": case["net"]}, "source.yaml")
    original = ct.Solution("source.yaml")

    def put(names):
        def prepare():
            if case["dir"]:
                os.makedirs(case["dir"])
            for a, b in names:
                shutil.copy(os.path.join(here, a), b)

        return prepare

    flag = "-m" if case["short"] else "--model"
    argv = ["--convert", flag, source] + (["--path", case["out"]] if case["out"] else [])
    one = in_dir(
        "cli", case["out"], put([("source.yaml", source)]), lambda: (command(case["entry"], argv), tree())[1]
    )
    names = []
    two = in_dir(
        "lib",
        case["out"],
        put([("source.yaml", source)]),
        lambda: (names.extend(convert(source, None, None, case["out"])), tree())[1],
    )
    compare(one, two, " ".join(argv))
    expect = {os.path.normpath(n) for n in names} | {source}
    check(set(one) == expect, "files {} instead of {}", sorted(one), sorted(expect))
    for n in names:
        check(
            os.path.dirname(n) == case["out"] and os.path.exists(os.path.join("lib", n)),
            "{} was not written into {}",
            n,
            case["out"] or "the working directory",
        )
    thermo = [n for n in names if "thermo" in os.path.basename(n)]
    trans = [n for n in names if "transport" in os.path.basename(n)]
    inp = [n for n in names if n.endswith(".inp")]
    check(len(inp) == 1, "files {}", names)
    copies = [(os.path.join("cli", n), os.path.join(case["dir"], os.path.basename(n))) for n in names]
    use = trans if case["use_transport"] else []
    argv = ["--convert", flag, os.path.join(case["dir"], os.path.basename(inp[0]))]
    args = [argv[2], None, None, case["back_out"]]
    for option, found, i in (("--thermo", thermo, 1), ("--transport", use, 2)):
        if found:
            args[i] = os.path.join(case["dir"], os.path.basename(found[0]))
            argv += [option, args[i]]
    if case["back_out"]:
        argv += ["--path", case["back_out"]]
    three = in_dir(
        "cli2", case["back_out"], put(copies), lambda: (command(case["entry"], argv), tree())[1]
    )
    result = []
    four = in_dir(
        "lib2", case["back_out"], put(copies), lambda: (result.append(convert(*args)), tree())[1]
    )
    compare(three, four, " ".join(argv))
    name = os.path.normpath(os.path.join(case["back_out"], case["stem"] + ".yaml"))
    check(
        os.path.normpath(result[0]) == name and name in three,
        "converted file {} instead of {}",
        result[0],
        name,
    )
    back = ct.Solution(os.path.join("cli2", name))
    check(
        back.species_names == original.species_names and back.n_reactions == original.n_reactions,
        "the converted model has species {} and {} reactions",
        back.species_names,
        back.n_reactions,
    )
    return Outcome(True, {"conversion"})


# -- complete runs ------------------------------------------------------------------
@st.composite
def complete(draw):
    method = draw(st.sampled_from(["DRG", "DRGEP", "PFA", ""]))
    sa = method == "" or draw(st.booleans())
    return {
        "method": method,
        "sa": sa,
        "kind": draw(st.sampled_from(["initial", "greedy"])),
        "error": draw(st.sampled_from([5.0, 20.0, 60.0])),
        "T": draw(st.integers(1000, 1300)),
        "threads": draw(st.sampled_from([[], ["--num_threads", "2"], ["--num_threads"]])),
        "out": draw(st.sampled_from(["", "out"])),
        "cases": draw(st.integers(1, 2)),
    }


PROGRAM = "import sys; sys.path.insert(0, {src!r}); sys.argv[0] = 'pymars'; import runpy; runpy.run_module('pymars', run_name='__main__')"


def run_complete(case):
    from pymars.pymars import main
    from pymars.sampling import InputIgnition

    mix = {"H2": 2.0, "O2": 1.0, "N2": 3.76}
    spec = {
        "model": "h2o2.yaml",
        "error": case["error"],
        "targets": ["H2", "O2"],
        "retained-species": ["N2"],
        "autoignition-conditions": [
            {"kind": "constant volume", "temperature": case["T"] + 100.0 * k, "pressure": 1.0, "reactants": mix}
            for k in range(case["cases"])
        ],
    }
    if case["method"]:
        spec["method"] = case["method"]
    if case["sa"]:
        spec["sensitivity-analysis"] = True
        spec["sensitivity-type"] = case["kind"]
    argv = ["-i", "input.yaml"] + (["--path", case["out"]] if case["out"] else []) + case["threads"]

    def prepare():
        with open("input.yaml", "w") as fh:
            yaml.safe_dump(spec, fh, sort_keys=False)

    def program():
        done = subprocess.run(
            [sys.executable, "-c", PROGRAM.format(src=harness.SRC), *argv],
            stdout=subprocess.DEVNULL,
            stderr=subprocess.PIPE,
            text=True,
        )
        return done.returncode, done.stderr, tree()

    def lib():
        try:
            main(
                "h2o2.yaml",
                case["error"],
                [
                    InputIgnition("constant volume", case["T"] + 100.0 * k, 1.0, reactants=mix)
                    for k in range(case["cases"])
                ],
                method=case["method"] or None,
                target_species=["H2", "O2"],
                safe_species=["N2"],
                run_sensitivity_analysis=case["sa"],
                sensitivity_type=case["kind"],
                upper_threshold=0.1 if case["sa"] else None,
                path=case["out"],
            )
        except SystemExit:
            return True, tree()
        return False, tree()

    gave_up, want = in_dir("lib", case["out"], prepare, lib)
    code, err, got = in_dir("cli", case["out"], prepare, program)
    check((code != 0) == gave_up, "exit code {}: {}", code, err[-1500:])
    compare(got, want, " ".join(argv))
    reduced = [f for f in want if os.path.basename(f).startswith("reduced_")]
    return Outcome(bool(reduced), {"complete run"})


SUITES = [
    Suite("reduction", case, run, 320, 5000, hang=120),
    Suite("conversion", conversions, run_conversion, 160, 2500, hang=60),
    Suite("complete", complete, run_complete, 16, 240, hang=200),
]
