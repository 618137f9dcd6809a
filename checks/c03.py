"""C03: conversion to Chemkin and back."""

import math
import os

import cantera as ct
import numpy as np
from hypothesis import strategies as st

from lib import mechgen as mg
from lib.harness import Inconclusive, Outcome, Suite, check
from lib.models import load_ir, tree

PROPERTY = "C03"
RULE = (
    "round trip: random mechanisms of all expressible reaction types and GRI-3.0 / h2o2, also with "
    "awkward species and file names, directories and existing output, converted to Chemkin and "
    "back; rates at four states with every species present, thermodynamics at six temperatures, "
    "transport parameters; errors: mechanisms with one reaction type Chemkin does not have; "
    "non-trivial: at least one reaction"
)
ASSUMPTIONS = [
    "cantera.ck2yaml reads Chemkin files correctly",
    "files carry 5 digits of A, 3 decimals of b, 0.01 cal/mol or 4 digits of the activation "
    "energy, 9 digits of thermodynamic coefficients and 3 decimals of transport data",
]

AWKWARD = ["n-C7H16", "C2H5(L)", "x'", "CH2[T]", "o-", "a_b", "no2", "C2.x", "ABCDEFGHIJKLMNO", "R1*"]

RARE = ["orders", "chebyshev", "plog", "chemact-troe", "chemact-sri", "troe3", "duplicate"]

FILES = ["model.yaml", "a.b.yaml", "my model.yml", "m_1.yaml", "H2-O2.yml"]


@st.composite
def roundtrip(draw):
    case = {
        "file": draw(st.sampled_from(FILES)),
        "where": draw(st.sampled_from(["", "", "in", "in/deep"])),
        "path": draw(st.sampled_from(["", "", "out", "a/b", "ABS"])),
        "back": draw(st.sampled_from(["", "yaml", "ABS"])),
        "exists": draw(st.booleans()),
        "seed": draw(st.integers(0, 9999)),
    }
    if draw(st.integers(0, 24)) == 0:
        case["model"] = draw(st.sampled_from(["gri30.yaml", "h2o2.yaml"]))
        return case
    few = draw(st.lists(st.sampled_from(RARE), min_size=2, max_size=4))
    kinds = draw(st.sampled_from([mg.KINDS, few]))
    ir = draw(mg.mechanism(pool=mg.REAL, min_reactions=1, max_reactions=8, kinds=kinds))
    if draw(st.booleans()):
        free = [n for n in AWKWARD if n not in ir["sp"]]
        ren = draw(
            st.lists(
                st.tuples(st.sampled_from(ir["sp"]), st.sampled_from(free)),
                max_size=3,
                unique_by=(lambda t: t[0], lambda t: t[1]),
            )
        )
        ren = dict(ren)

        def words(x):
            if isinstance(x, dict):
                return {ren.get(k, k): words(v) for k, v in x.items()}
            if isinstance(x, list):
                return [words(v) for v in x]
            return x

        for r in ir["rx"]:
            equation = " ".join(
                f"(+{ren.get(t[2:-1], t[2:-1])})"
                if t.startswith("(+") and t.endswith(")")
                else ren.get(t, t)
                for t in r["equation"].split(" ")
            )
            for k in ("efficiencies", "orders"):
                if k in r:
                    r[k] = words(r[k])
            r["equation"] = equation
        ir["ren"] = ren
    # more digits than the generator's, and pre-exponential factors of any sign
    for r in ir["rx"]:
        for k in ("rate-constant", "low-P-rate-constant", "high-P-rate-constant"):
            if k in r and draw(st.integers(0, 3)) == 0:
                r[k]["A"] *= 1.0 + draw(st.integers(0, 999)) * 1e-7
                r[k]["b"] += draw(st.sampled_from([0.0, 0.0004, 0.12345]))
                r[k]["Ea"] += draw(st.sampled_from([0.0, 0.004, 1234.567]))
        if r.get("duplicate") and "rate-constant" in r and draw(st.integers(0, 5)) == 0:
            r["rate-constant"]["A"] *= -1.0
            r["negative-A"] = True
    case["ir"] = ir
    case["mid"] = draw(st.sampled_from([None, None, 1000.0, 1200.0, 1453.25, 999.99]))
    return case


def arrhenius_parts(rate):
    for name in ("low_rate", "high_rate"):
        if hasattr(rate, name):
            yield getattr(rate, name)
    if hasattr(rate, "rates"):
        for _, r in rate.rates:
            yield r
    if hasattr(rate, "activation_energy"):
        yield rate


def tolerance(reaction, T):
    """Relative error of a rate due to the digits written."""
    kind = reaction.reaction_type
    blended = kind.startswith(("falloff", "chemically"))
    worst = 0.0
    for r in arrhenius_parts(reaction.rate):
        Ea, b = r.activation_energy / 4184.0, r.temperature_exponent
        step = abs(Ea - float(f"{Ea:.3e}" if blended else f"{Ea:.2f}")) + 1e-6 * abs(Ea)
        worst = max(worst, step / (1.987 * T) + abs(b - round(b, 3)) * math.log(T))
    factor = 1.3
    if blended:
        # both limits are rounded, and the blending function depends on their ratio
        factor = 4.0
        if reaction.rate.sub_type == "SRI":
            a, b, c = reaction.rate.falloff_coeffs[:3]
            base = a * math.exp(-b / T) + math.exp(-T / c)
            factor += 0.7 * abs(math.log(max(base, 1e-300)))
    return 1.2e-4 * factor + factor * worst


def same_species(a, b):
    check(
        [s.name for s in a.species()] == [s.name for s in b.species()],
        "species {} instead of {}",
        b.species_names,
        a.species_names,
    )
    check(
        sorted(a.element_names) == sorted(b.element_names),
        "elements {} instead of {}",
        b.element_names,
        a.element_names,
    )
    for s, t in zip(a.species(), b.species()):
        check(s.composition == t.composition, "composition of {}: {}", s.name, t.composition)
        for what, x, y, tol in (
            ("lowest temperature", s.thermo.min_temp, t.thermo.min_temp, 0.0006),
            ("highest temperature", s.thermo.max_temp, t.thermo.max_temp, 0.0006),
            ("middle temperature", s.thermo.coeffs[0], t.thermo.coeffs[0], 0.006),
        ):
            if what == "middle temperature" and (s.thermo.coeffs[1:8] == s.thermo.coeffs[8:]).all():
                continue  # one set of coefficients for the whole range
            check(abs(x - y) < tol, "{} of {}: {} instead of {}", what, s.name, y, x)
        bad = np.abs(t.thermo.coeffs[1:] - s.thermo.coeffs[1:]) > 6e-9 * np.abs(s.thermo.coeffs[1:])
        check(not bad.any(), "thermo coefficient of {}: {}", s.name, np.nonzero(bad)[0])
        for T in (310.0, 700.0, 990.0, 1100.0, 1600.0, 2900.0):
            if not s.thermo.min_temp < T < s.thermo.max_temp:
                continue
            for f in ("cp", "h", "s"):
                x, y = getattr(s.thermo, f)(T), getattr(t.thermo, f)(T)
                scale = ct.gas_constant * (T if f == "h" else 1.0)
                check(
                    abs(x - y) < 1e-6 * (abs(x) + 30 * scale),
                    "{} of {} at {} K: {} instead of {}",
                    f,
                    s.name,
                    T,
                    y,
                    x,
                )


def same_transport(a, b):
    for s, t in zip(a.species(), b.species()):
        x, y = s.transport, t.transport
        check(y is not None, "no transport data of {}", s.name)
        check(x.geometry == y.geometry, "geometry of {}: {}", s.name, y.geometry)
        for name, unit in (
            ("diameter", 1e-10),
            ("well_depth", ct.boltzmann),
            ("dipole", 3.33564e-30),
            ("polarizability", 1e-30),
            ("rotational_relaxation", 1.0),
        ):
            p, q = getattr(x, name) / unit, getattr(y, name) / unit
            check(
                abs(p - q) < 6e-4 + 1e-5 * abs(p), "{} of {}: {} instead of {}", name, s.name, q, p
            )


def sides(reaction, which):
    """Species of a side, including a collider that is a particular species.

    "A + B => C + B" is the same reaction whether or not B is called the collider.
    """
    out = dict(getattr(reaction, which))
    body = reaction.third_body
    if body is not None and body.name != "M" and "(+" not in reaction.equation:
        out[body.name] = out.get(body.name, 0.0) + 1.0
    return out


def same_reactions(a, b, rng):
    check(
        a.n_reactions == b.n_reactions, "{} reactions instead of {}", b.n_reactions, a.n_reactions
    )
    states = []
    for T, P in ((620.0, 2e4), (1200.0, 101325.0), (1900.0, 6e6), (2600.0, 3e5)):
        X = 0.05 + rng.random(a.n_species)
        got = []
        for gas in (a, b):
            gas.TPX = T, P, X / X.sum()
            got.append((gas.forward_rates_of_progress, gas.reverse_rates_of_progress))
        # collider concentrations that cancel to zero only up to rounding
        void = np.abs(a.third_body_concentrations) < 1e-9 * a.density_mole
        states.append((T, P, got, void))
    for i, (r, q) in enumerate(zip(a.reactions(), b.reactions())):
        where = f"reaction {i} {r.equation} ({r.reaction_type})"
        for what in ("reversible", "duplicate"):
            x, y = getattr(r, what), getattr(q, what)
            check(x == y, "{}: {} {} instead of {}", where, what, y, x)
        for what in ("reactants", "products"):
            x, y = sides(r, what), sides(q, what)
            check(x == y, "{}: {} {} instead of {}", where, what, y, x)
        check(
            {**sides(r, "reactants"), **r.orders} == {**sides(q, "reactants"), **q.orders},
            "{}: orders {} instead of {}",
            where,
            q.orders,
            r.orders,
        )
        for T, P, got, void in states:
            if void[i]:
                continue
            tol = tolerance(r, T)
            for k, what in ((0, "forward"), (1, "reverse")):
                x, y = got[0][k][i], got[1][k][i]
                if not (math.isfinite(x) and math.isfinite(y)):
                    check(math.isfinite(x) == math.isfinite(y), "{}: {} rate {} {}", where, what, x, y)
                    continue
                check(
                    abs(x - y) <= tol * abs(x) + 1e-280,
                    "{}: {} rate {} instead of {} at {} K, {} Pa",
                    where,
                    what,
                    y,
                    x,
                    T,
                    P,
                )


def converted(*args, **kw):
    from pymars.tools import convert

    try:
        return convert(*args, **kw)
    except SystemExit as error:
        check(False, "conversion ends with status {}", error.code)


def place(name):
    if name == "ABS":
        name = os.path.join(os.getcwd(), "abs dir")
    if name:
        os.makedirs(name, exist_ok=True)
    return name


def run_roundtrip(case):
    where, path, back = place(case["where"]), place(case["path"]), place(case["back"])
    source = os.path.join(where, case["file"])
    labels = set()
    if "model" in case:
        gas = ct.Solution(case["model"])
        gas.write_yaml(source)
        gas = ct.Solution(source)
        labels.add(case["model"])
    else:
        ir = case["ir"]
        doc = mg.document(ir)
        if case["mid"]:
            for s in doc["species"]:
                t = s["thermo"]
                if len(t["temperature-ranges"]) == 3:
                    lo, _, hi = t["temperature-ranges"]
                    if lo < case["mid"] < hi:
                        t["temperature-ranges"][1] = case["mid"]
        mg.write_doc(doc, source)
        try:
            gas = ct.Solution(source)
        except ct.CanteraError:
            raise Inconclusive("generated model does not load")
        labels |= {r.reaction_type for r in gas.reactions()}
        if any(r.orders for r in gas.reactions()):
            labels.add("explicit orders")
    if any(s.thermo.n_coeffs != 15 for s in gas.species()):
        raise Inconclusive("other thermodynamic models")
    transport = all(s.transport for s in gas.species())
    base = os.path.splitext(case["file"])[0]
    want = [base + ".inp", base + "_thermo.dat"] + ([base + "_transport.dat"] if transport else [])
    want = [os.path.join(path, f) for f in want]
    if case["exists"]:
        for f in want + [os.path.join(back, base + ".yaml")]:
            if os.path.exists(f):
                continue
            with open(f, "w") as fh:
                fh.write("REACTIONS\nold content\n" * 400)
    before = set(tree("."))
    files = converted(source, path=path)
    check(
        [os.path.normpath(f) for f in files] == [os.path.normpath(f) for f in want],
        "files {} instead of {}",
        files,
        want,
    )
    for f in files:
        check(os.path.isfile(f), "{} is missing", f)
    new = {os.path.normpath(f) for f in set(tree(".")) - before}
    check(
        new <= {os.path.normpath(os.path.relpath(f)) for f in want},
        "other files written: {}",
        new,
    )
    args = {"thermo_file": files[1], "path": back}
    if transport:
        args["transport_file"] = files[2]
    result = converted(files[0], **args)
    check(
        os.path.normpath(result) == os.path.normpath(os.path.join(back, base + ".yaml")),
        "converted model is {}",
        result,
    )
    try:
        again = ct.Solution(result)
    except ct.CanteraError as error:
        check(False, "converted model does not load: {}", str(error)[-400:])
    same_species(gas, again)
    if transport:
        same_transport(gas, again)
    same_reactions(gas, again, np.random.default_rng(case["seed"]))
    return Outcome(gas.n_reactions > 0, labels)


@st.composite
def unsupported(draw):
    ir = draw(mg.mechanism(pool=mg.REAL, min_species=4, min_reactions=0, max_reactions=4))
    return {"ir": ir, "which": draw(st.integers(0, 2)), "where": draw(st.integers(0, 4))}


def run_unsupported(case):
    from pymars.tools import convert

    ir = case["ir"]
    if "H2" not in ir["sp"] or "H" not in ir["sp"]:
        for n in ("H2", "H"):
            if n not in ir["sp"]:
                ir["sp"].append(n)
    ir["rx"] = [r for r in ir["rx"] if "H2" not in r["equation"].split()]
    third = {"equation": "H + H + M <=> H2 + M"}
    entry = [
        {
            "equation": "H + H <=> H2",
            "type": "Blowers-Masel",
            "rate-constant": {"A": 1e10, "b": 0.0, "Ea0": 1000.0, "w": 100000.0},
        },
        {
            "equation": "H + H (+M) <=> H2 (+M)",
            "type": "falloff",
            "low-P-rate-constant": {"A": 1e15, "b": 0.0, "Ea": 0.0},
            "high-P-rate-constant": {"A": 1e10, "b": 0.0, "Ea": 0.0},
            "Tsang": {"A": 0.95, "B": -1e-4},
        },
        {
            **third,
            "type": "linear-Burke",
            "colliders": [
                {"name": "M", "type": "falloff",
                 "low-P-rate-constant": {"A": 1e15, "b": 0.0, "Ea": 0.0},
                 "high-P-rate-constant": {"A": 1e10, "b": 0.0, "Ea": 0.0},
                 "Troe": {"A": 0.5, "T3": 1e-30, "T1": 1e30}},
            ],
        },
    ][case["which"]]
    ir["rx"].insert(case["where"] % (len(ir["rx"]) + 1), entry)
    gas = load_ir(ir, "model.yaml")
    kinds = [r.reaction_type for r in gas.reactions()]
    try:
        files = convert("model.yaml")
    except Exception as error:  # noqa: BLE001
        return Outcome(True, {type(error).__name__, entry["type"]})
    check(False, "{} is written to {}", kinds, files)


SUITES = [
    Suite("roundtrip", roundtrip, run_roundtrip, quick=2000, thorough=9000, hang=120),
    Suite("unsupported", unsupported, run_unsupported, quick=60, thorough=600, hang=60),
]
