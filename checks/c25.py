"""C25: valid and invalid input specifications."""

import copy

import yaml
from hypothesis import strategies as st

import cantera as ct

from lib.harness import Outcome, Suite, check

PROPERTY = "C25"
RULE = (
    "specifications built from the documented rules (all methods, sensitivity analysis, 0-3 "
    "cases of each kind, both ways of giving mixtures, optional keys present or absent, values "
    "as integers or floats, read from YAML or given directly), either valid or with exactly one "
    "rule broken out of about fifty ways; valid ones must come back value by value, broken ones "
    "must raise; non-trivial: a rule is broken, or optional keys and several cases are present"
)
ASSUMPTIONS = ["rules as documented in docs/usage.rst"]

POOL = ["H2", "O2", "N2", "AR", "CH4", "H2O", "OH", "CO2", "CO", "HO2", "CH3OH", "C2H4"]
_species = {}


def gri():
    if not _species:
        for s in ct.Species.list_from_file("gri30.yaml"):
            _species[s.name] = s
    return _species


positive = st.one_of(
    st.integers(1, 3000), st.floats(1e-3, 3000.0).map(lambda x: round(x, 5) or 1.0)
)
TOP = [
    "model missing", "model empty", "model file", "error missing", "error zero",
    "nothing to do", "method unknown", "targets missing", "targets empty", "target unknown",
    "retained unknown", "no conditions", "phase unknown",
]  # fmt: skip
CASE = [
    "temperature missing", "temperature zero", "temperature negative", "pressure missing",
    "pressure zero", "pressure negative", "both ways", "no mixture", "composition type",
]  # fmt: skip
IGN = ["kind missing", "kind unknown"]
FLAME = ["width zero", "width negative"]
REACTANTS = ["amount zero", "amount negative", "reactant unknown", "both: fuel", "both: ratio"]
RATIO = [
    "ratio missing", "ratio zero", "ratio negative", "fuel missing", "fuel empty", "oxidizer missing",
    "oxidizer empty", "fuel amount zero", "fuel amount negative", "oxidizer amount zero",
    "oxidizer amount negative", "fuel unknown", "oxidizer unknown", "both: reactants",
    "mass with ratio", "only fuel", "only ratio",
]  # fmt: skip
KEYS = {"ign": "autoignition-conditions", "psr": "psr-conditions", "flame": "laminar-flame-conditions"}


@st.composite
def case(draw):
    species = draw(st.lists(st.sampled_from(POOL), min_size=3, max_size=9, unique=True))
    name = st.sampled_from(species)

    def mix(hi=3):
        return {n: draw(positive) for n in draw(st.lists(name, min_size=1, max_size=hi, unique=True))}

    spec = {"model": "model.yaml", "error": draw(st.sampled_from([1, 5.0, 10, 12.5, 99.0, 0.1]))}
    way = draw(st.sampled_from(["method", "sa", "both"]))
    if way != "sa":
        spec["method"] = draw(st.sampled_from(["DRG", "DRGEP", "PFA"]))
    if way != "sa" or draw(st.booleans()):
        spec["targets"] = draw(st.lists(name, min_size=1, max_size=3, unique=True))
    if way != "method":
        spec["sensitivity-analysis"] = True
    elif draw(st.booleans()):
        spec["sensitivity-analysis"] = False
    if draw(st.booleans()):
        spec["sensitivity-type"] = draw(st.sampled_from(["initial", "greedy"]))
    if draw(st.booleans()):
        spec["upper-threshold"] = draw(st.sampled_from([0.05, 0.1, 0.2, 0.4, 1]))
    if draw(st.booleans()):
        spec["retained-species"] = draw(st.lists(name, max_size=3, unique=True))
    if draw(st.booleans()):
        spec["phase-name"] = draw(st.sampled_from(["gas", "gas", ""]))
    if draw(st.booleans()):
        spec["min-flame-speed"] = draw(st.sampled_from([0.0, 0.01, 0.05, 1, 2.5]))
    counts = [draw(st.integers(0, 3)) for _ in range(3)]
    if not sum(counts):
        counts[draw(st.integers(0, 2))] = 1
    for kind, n in zip(KEYS, counts):
        if n == 0:
            if draw(st.integers(0, 3)) == 0:
                spec[KEYS[kind]] = []
            continue
        entries = []
        for _ in range(n):
            e = {"temperature": draw(positive), "pressure": draw(positive)}
            if kind == "ign":
                e["kind"] = draw(st.sampled_from(["constant volume", "constant pressure"]))
                if draw(st.booleans()):
                    e["end-time"] = draw(st.sampled_from([0.001, 1, 0.5, 10.0]))
                if draw(st.booleans()):
                    e["max-steps"] = draw(st.sampled_from([1, 500, 20000]))
            if kind == "flame" and draw(st.booleans()):
                e["width"] = draw(st.sampled_from([0.014, 0.1, 1, 2.0]))
            if draw(st.booleans()):
                e["reactants"] = mix(4)
                if draw(st.booleans()):
                    e["composition-type"] = draw(st.sampled_from(["mole", "mass"]))
            else:
                e["equivalence-ratio"] = draw(st.sampled_from([1.0, 1, 0.5, 2, 0.1]))
                e["fuel"], e["oxidizer"] = mix(), mix()
                if draw(st.integers(0, 3)) == 0:
                    e["composition-type"] = "mole"
            entries.append(e)
        spec[KEYS[kind]] = entries
    out = {"species": species, "spec": spec, "yaml": draw(st.booleans()), "break": ""}
    if draw(st.integers(0, 2)):
        where = draw(st.sampled_from(["top", "case", "case", "case"]))
        if where == "top":
            options = list(TOP)
            if way == "sa":
                options = [o for o in options if o not in ("targets missing", "targets empty")]
            out["break"] = draw(st.sampled_from(options))
            out["at"] = None
        else:
            kinds = [k for k in KEYS if spec.get(KEYS[k])]
            kind = draw(st.sampled_from(kinds))
            i = draw(st.integers(0, len(spec[KEYS[kind]]) - 1))
            e = spec[KEYS[kind]][i]
            options = list(CASE) + (REACTANTS if "reactants" in e else RATIO) * 1
            options += {"ign": IGN * 2, "flame": FLAME * 2}.get(kind, [])
            out["break"] = draw(st.sampled_from(options))
            out["at"] = [kind, i]
        out["pick"] = draw(st.integers(0, 20))
        out["wrong"] = draw(st.sampled_from(["case", "case", "suffix", "other", "space", "empty"]))
    return out


def unknown(name, how, species):
    """A name that is not that of a species of the model."""
    new = {
        "case": name.swapcase(),
        "suffix": name + "2",
        "other": "XYZ",
        "space": name + " ",
        "empty": "h",
    }[how]
    return new if new not in species else "no such species"


def broken(case):
    spec = copy.deepcopy(case["spec"])
    how, species = case["break"], case["species"]
    if not how:
        return spec
    wrong = unknown(species[case["pick"] % len(species)], case["wrong"], species)
    if case["at"] is None:
        if how == "model missing":
            del spec["model"]
        elif how == "model empty":
            spec["model"] = ""
        elif how == "model file":
            spec["model"] = "missing.yaml"
        elif how == "error missing":
            del spec["error"]
        elif how == "error zero":
            spec["error"] = 0
        elif how == "nothing to do":
            spec.pop("method", None)
            spec.pop("sensitivity-analysis", None)
        elif how == "method unknown":
            spec["method"] = ["drgep", "SA", "DRGASA", "DRG ", "PFa"][case["pick"] % 5]
            spec.setdefault("targets", [species[0]])
        elif how == "targets missing":
            del spec["targets"]
        elif how == "targets empty":
            spec["targets"] = []
        elif how == "target unknown":
            spec.setdefault("targets", []).insert(case["pick"] % 2, wrong)
        elif how == "retained unknown":
            spec.setdefault("retained-species", []).insert(case["pick"] % 2, wrong)
        elif how == "no conditions":
            for key in KEYS.values():
                if case["pick"] % 2:
                    spec.pop(key, None)
                else:
                    spec[key] = []
        elif how == "phase unknown":
            spec["phase-name"] = ["Gas2", "plasma", "h2o2"][case["pick"] % 3]
        return spec
    kind, i = case["at"]
    e = spec[KEYS[kind]][i]
    what = how.split()[0]
    if how in ("temperature missing", "pressure missing", "kind missing"):
        del e[what]
    elif how in ("fuel missing", "oxidizer missing"):
        del e[what]
    elif how in ("fuel empty", "oxidizer empty"):
        e[what] = {}
    elif how in ("temperature zero", "pressure zero", "width zero"):
        e[what] = 0.0
    elif how in ("temperature negative", "pressure negative", "width negative"):
        e[what] = -abs(e.get(what, 0.1))
    elif how == "kind unknown":
        e["kind"] = ["Constant volume", "constant enthalpy", "volume", "", "constant  pressure"][
            case["pick"] % 5
        ]
    elif how == "composition type":
        e["composition-type"] = ["Mole", "volume", "", "molar", "masses"][case["pick"] % 5]
    elif how == "both ways" or how.startswith("both:"):
        extra = {species[case["pick"] % len(species)]: 1.0}
        if "reactants" in e:
            part = how[6:] if how != "both ways" else ["fuel", "ratio", "all"][case["pick"] % 3]
            if part in ("fuel", "all"):
                e["fuel"] = extra
            if part == "all":
                e["oxidizer"] = extra
            if part in ("ratio", "all"):
                e["equivalence-ratio"] = 1.0
                if e.get("composition-type") == "mass":
                    del e["composition-type"]
        else:
            e["reactants"] = extra
    elif how == "no mixture":
        for key in ("reactants", "fuel", "oxidizer", "equivalence-ratio", "composition-type"):
            e.pop(key, None)
    elif how == "only fuel":
        del e["oxidizer"], e["equivalence-ratio"]
    elif how == "only ratio":
        del e["oxidizer"], e["fuel"]
    elif how == "ratio missing":
        del e["equivalence-ratio"]
    elif how == "ratio zero":
        e["equivalence-ratio"] = 0.0
    elif how == "ratio negative":
        e["equivalence-ratio"] = -1.0
    elif how == "mass with ratio":
        e["composition-type"] = "mass"
    else:
        part = {"amount": "reactants", "reactant": "reactants"}.get(what, what)
        names = list(e[part])
        name = names[case["pick"] % len(names)]
        if "unknown" in how:
            # in place of the species or next to it
            if case["pick"] % 3:
                e[part] = {(wrong if n == name else n): v for n, v in e[part].items()}
            else:
                e[part][wrong] = 1.0
        else:
            e[part][name] = 0.0 if "zero" in how else -1.0
    return spec


def run(case):
    from pymars.pymars import parse_inputs

    gas = ct.Solution(
        thermo="ideal-gas",
        kinetics="gas",
        species=[gri()[n] for n in case["species"]],
        reactions=[],
        name="gas",
    )
    gas.write_yaml("model.yaml")
    spec = broken(case)
    given = copy.deepcopy(spec)
    if case["yaml"]:
        spec = yaml.safe_load(yaml.safe_dump(spec))
    try:
        got = parse_inputs(spec)
        error = None
    except Exception as exc:  # noqa: BLE001
        got, error = None, exc
    if case["break"]:
        check(
            error is not None,
            "accepted although: {} {} ({})",
            case["break"],
            case["at"] or "",
            [e for k in KEYS.values() for e in given.get(k, [])] if case["at"] else given,
        )
        return Outcome(True, {case["break"]})
    check(error is None, "valid specification refused: {!r}", error)
    check(spec == given, "the specification was modified: {} instead of {}", spec, given)

    def same(name, value, want):
        check(value == want, "{} is {!r} instead of {!r}", name, value, want)

    sa = bool(given.get("sensitivity-analysis", False))
    same("model", got.model, given["model"])
    same("error", got.error, given["error"])
    same("method", got.method or "", given.get("method", ""))
    same("targets", list(got.target_species), given.get("targets", []))
    same("sensitivity analysis", bool(got.sensitivity_analysis), sa)
    same("sensitivity type", got.sensitivity_type, given.get("sensitivity-type", "initial"))
    same("phase", got.phase_name, given.get("phase-name", ""))
    same("minimum flame speed", got.min_flame_speed, given.get("min-flame-speed"))
    upper = given.get("upper-threshold")
    same("upper threshold", got.upper_threshold, upper if upper or not sa else 0.1)
    mixture = []
    n_cases = 0
    for kind, parsed in (
        ("ign", got.ignition_conditions),
        ("psr", got.psr_conditions),
        ("flame", got.flame_conditions),
    ):
        entries = given.get(KEYS[kind], [])
        n_cases += len(entries)
        same(f"number of {kind} cases", len(parsed), len(entries))
        for i, (p, e) in enumerate(zip(parsed, entries)):
            pre = f"{kind} case {i}: "
            same(pre + "temperature", p.temperature, e["temperature"])
            same(pre + "pressure", p.pressure, e["pressure"])
            same(pre + "ratio", p.equivalence_ratio or 0.0, e.get("equivalence-ratio", 0.0))
            for part in ("fuel", "oxidizer", "reactants"):
                same(pre + part, dict(getattr(p, part) or {}), e.get(part, {}))
                mixture += list(e.get(part, {}))
            same(pre + "type", p.composition_type, e.get("composition-type", "mole"))
            if kind == "ign":
                same(pre + "kind", p.kind, e["kind"])
                same(pre + "end time", p.end_time or 0, e.get("end-time", 0))
                same(pre + "steps", p.max_steps, e.get("max-steps", 10000))
            if kind == "flame":
                same(pre + "width", p.width, e.get("width", 0.1))
    safe = list(got.safe_species)
    check(len(set(safe)) == len(safe), "retained species repeated: {}", safe)
    retained = given.get("retained-species", [])
    targets = set(given.get("targets", []))
    check(
        set(retained) <= set(safe) and set(safe) <= set(retained) | set(mixture),
        "retained species {} from {} and {}",
        safe,
        retained,
        sorted(set(mixture)),
    )
    missing = set(mixture) - set(safe) - targets
    check(not missing, "mixture species {} are not retained", sorted(missing))
    return Outcome(n_cases > 1 and len(given) > 5, {"valid"})


SUITES = [Suite("specification", case, run, 8000, 100000)]
