"""Random gas-phase mechanisms as JSON documents.

A mechanism is described by a small JSON value (the IR)

    {"sp": [pool names], "rx": [Cantera reaction dicts], "tr": bool,
     "name": phase name, "ren": {pool name: name used}, "tm": {pool name: shift}}

which :func:`document` expands into a complete Cantera input document.  All
reactions are balanced by construction: species multisets of the same elemental
composition are paired.  Reactions that Cantera would call undeclared duplicates
are avoided by construction as well.
"""

import itertools
import json
import math
import os
from fractions import Fraction

from hypothesis import strategies as st

with open(os.path.join(os.path.dirname(__file__), "species.json")) as _fh:
    POOL = json.load(_fh)


def _derive(name, base, shift, composition=None):
    data = json.loads(json.dumps(POOL[base]))
    if composition:
        data["composition"] = composition
    for row in data["thermo"]["data"]:
        row[5] += shift
    POOL[name] = data


_derive("H2O2-B", "H2O2", 9000.0)
_derive("O3", "HO2", 15000.0, {"O": 3})
_derive("S1-C2H4", "C2H4", 6000.0)
_derive("CH3-X", "CH3", -1500.0)
_derive("H2-para", "H2", 120.0)
_derive("OH*", "OH", 48000.0)
_derive("HOCHO", "CO2", -12000.0, {"C": 1, "H": 2, "O": 2})
_derive("HOCO2H", "CO2", -2500.0, {"C": 1, "H": 2, "O": 3})
_derive("CH2NOH", "CH3OH", 3000.0, {"C": 1, "H": 3, "N": 1, "O": 1})

NAMES = sorted(POOL)
REAL = [
    n for n in NAMES if n not in ("OH*", "H2-para")
]  # safe in Chemkin files as well
CORE = ["H2", "O2", "H", "O", "OH", "H2O", "HO2", "H2O2", "AR", "N2"]

UNITS = {"length": "cm", "time": "s", "quantity": "mol", "activation-energy": "cal/mol"}


def actual_name(ir, name):
    return ir.get("ren", {}).get(name, name)


def species_entry(ir, name):
    data = json.loads(json.dumps(POOL[name]))
    shift = ir.get("tm", {}).get(name)
    if shift:
        for row in data["thermo"]["data"]:
            row[5] += shift
    out = {
        "name": actual_name(ir, name),
        "composition": data["composition"],
        "thermo": data["thermo"],
    }
    if ir.get("tr", True):
        out["transport"] = data["transport"]
    return out


def document(ir):
    """Complete Cantera input document of a mechanism IR."""
    species = [species_entry(ir, n) for n in ir["sp"]]
    elements = []
    for s in species:
        for e in s["composition"]:
            if e not in elements:
                elements.append(e)
    phase = {
        "name": ir.get("name", "gas"),
        "thermo": "ideal-gas",
        "elements": elements,
        "species": [s["name"] for s in species],
        "kinetics": "gas",
        "reactions": "all" if ir["rx"] else "none",
        "state": {"T": 300.0, "P": 101325.0},
    }
    tr = ir.get("tr", True)
    if tr:
        phase["transport"] = tr if isinstance(tr, str) else "mixture-averaged"
    doc = {"units": UNITS, "phases": [phase], "species": species}
    if ir["rx"]:
        doc["reactions"] = ir["rx"]
    if ir.get("decoy"):
        # a second phase with another subset of species and no reactions, first
        # in the file, so that ignoring the phase name is noticed
        other = dict(
            phase,
            name=ir["decoy"],
            species=[s["name"] for s in species][: max(1, len(species) // 2)],
            reactions="none",
        )
        used = set()
        for s in species[: max(1, len(species) // 2)]:
            used |= set(s["composition"])
        other["elements"] = [e for e in elements if e in used]
        doc["phases"] = [other, phase]
    return doc


def write_doc(doc, path):
    with open(path, "w") as fh:
        json.dump(doc, fh)
    return path


def write_ir(ir, path):
    return write_doc(document(ir), path)


def composition_of(names):
    total = {}
    for n in names:
        for e, k in POOL[n]["composition"].items():
            total[e] = total.get(e, 0) + k
    return tuple(sorted(total.items()))


def balanced_groups(species, sizes=(1, 2, 3)):
    """Lists of species multisets that have the same elemental composition."""
    groups = {}
    for size in sizes:
        for combo in itertools.combinations_with_replacement(species, size):
            groups.setdefault(composition_of(combo), []).append(combo)
    return [g for _, g in sorted(groups.items()) if len(g) > 1]


def _stoich(combo):
    out = {}
    for n in combo:
        out[n] = out.get(n, 0) + 1
    return out


def side(stoich, ir_names):
    parts = []
    for n, k in stoich.items():
        name = ir_names(n)
        if k == 1:
            parts.append(name)
        else:
            text = repr(float(k))
            if text.endswith(".0"):
                text = text[:-2]
            parts.append(f"{text} {name}")
    return " + ".join(parts)


def reaction_key(reac, prod):
    """Key shared by reactions Cantera may regard as duplicates.

    Species on both sides are cancelled: Cantera may read them as the explicit
    collider of a three-body reaction.
    """
    net = {n: prod.get(n, 0) - reac.get(n, 0) for n in {**reac, **prod}}
    reac = {n: -k for n, k in net.items() if k < 0}
    prod = {n: k for n, k in net.items() if k > 0}

    def norm(d, scale):
        return tuple(sorted((n, Fraction(k) / scale) for n, k in d.items()))

    scale = Fraction(sum(map(Fraction, reac.values())))
    a = (norm(reac, scale), norm(prod, scale))
    scale = Fraction(sum(map(Fraction, prod.values())))
    b = (norm(prod, scale), norm(reac, scale))
    return min(a, b)


def rounded(lo, hi, digits):
    """Floats with a limited number of decimals (compact and shrinkable)."""
    scale = 10**digits
    return st.integers(math.ceil(lo * scale), math.floor(hi * scale)).map(
        lambda i: i / scale
    )


def arrhenius(lo=8, hi=15, emax=40000):
    return st.tuples(
        rounded(1.0, 9.999, 3),
        st.integers(lo, hi),
        rounded(-1.5, 2.0, 2),
        st.sampled_from([0, 1]).flatmap(
            lambda k: rounded(-1000, emax, 1) if k else st.just(0.0)
        ),
    ).map(
        lambda t: {"A": float(f"{t[0]}e{t[1]}"), "b": t[2], "Ea": t[3]}
    )


KINDS = [
    "elementary",
    "elementary",
    "elementary",
    "three-body",
    "collider",
    "lindemann",
    "troe3",
    "troe4",
    "sri3",
    "sri5",
    "falloff-collider",
    "chemact",
    "chemact-troe",
    "chemact-sri",
    "plog",
    "chebyshev",
    "duplicate",
    "orders",
    "fractional",
]


_GROUPS = {}


def pool_groups(pool):
    if pool not in _GROUPS:
        _GROUPS[pool] = balanced_groups(sorted(pool), (1, 2))
    return _GROUPS[pool]


@st.composite
def species_set(draw, pool, min_species, max_species):
    """Ordered species lists, most of which allow some reactions."""
    mode = draw(st.integers(0, 3))
    if mode <= 1:
        base = [n for n in CORE if n in pool] if mode == 0 else list(pool)
        low = max(min_species, min(4, max_species)) if mode == 0 else min_species
        return draw(
            st.lists(
                st.sampled_from(base),
                min_size=min(low, len(base)),
                max_size=min(max_species, len(base)),
                unique=True,
            )
        )
    groups = pool_groups(pool)
    species = []
    for _ in range(draw(st.integers(1, 4))):
        group = groups[draw(st.integers(0, len(groups) - 1))]
        for combo in draw(
            st.lists(st.sampled_from(group), min_size=2, max_size=3, unique=True)
        ):
            for n in combo:
                if n not in species:
                    species.append(n)
    for n in draw(st.lists(st.sampled_from(pool), max_size=3, unique=True)):
        if n not in species:
            species.append(n)
    species = species[: max(max_species, 4)]
    for n in pool:
        if len(species) >= min_species:
            break
        if n not in species:
            species.append(n)
    order = draw(st.permutations(range(len(species))))
    return [species[k] for k in order]


TRANSPORT = [False] * 4 + [True] * 3 + [
    "multicomponent",
    "unity-Lewis-number",
    "mixture-averaged-CK",
    "multicomponent-CK",
]


@st.composite
def mechanism(
    draw,
    species=None,
    min_species=2,
    max_species=9,
    min_reactions=0,
    max_reactions=10,
    kinds=KINDS,
    pool=None,
    transport=None,
    rename=False,
    rates=None,
    default_eff=True,
    collider_duplicates=True,
    third_order=True,
    reversible=None,
):
    """Strategy for mechanism IRs."""
    pool = pool or NAMES
    if species is None:
        species = draw(species_set(tuple(pool), min_species, max_species))
    ir = {"sp": list(species), "rx": [], "name": "gas"}
    ir["tr"] = draw(st.sampled_from(TRANSPORT)) if transport is None else transport
    if rename:
        ir["ren"] = draw(renaming(species))

    def nm(n):
        return actual_name(ir, n)

    groups2 = balanced_groups(species, (1, 2))
    groups3 = balanced_groups(species, (1, 2, 3)) if third_order else groups2
    if not groups3:
        return ir
    rate = rates or arrhenius()
    used = set()
    n_target = draw(st.integers(min_reactions, max_reactions))
    attempts = 0
    focus = draw(st.sampled_from(kinds))
    while len(ir["rx"]) < n_target and attempts < 2 * n_target + 3:
        attempts += 1
        kind = draw(st.sampled_from(kinds + [focus] * (len(kinds) // 2)))
        small = kind not in ("elementary", "duplicate", "orders", "fractional")
        groups = groups2 if small and groups2 else groups3
        group = groups[draw(st.integers(0, len(groups) - 1))]
        i = draw(st.integers(0, len(group) - 1))
        j = draw(st.integers(0, len(group) - 2))
        if j >= i:
            j += 1
        reac, prod = _stoich(group[i]), _stoich(group[j])
        if len(set(reac) & set(prod)) > 1:
            continue  # ambiguous third body for Cantera
        if small and not groups2 and (len(group[i]) > 2 or len(group[j]) > 2):
            kind = "elementary"
        key = reaction_key(reac, prod)
        if key in used:
            continue
        used.add(key)
        if reversible is None:
            rev = draw(st.booleans())
        else:
            rev = reversible
        if kind == "orders" and set(reac) & set(prod):
            kind = "elementary"
        if kind in ("orders", "fractional"):
            rev = False
        arrow = " <=> " if rev else " => "

        def equation(extra="", scale=None):
            r, p = reac, prod
            if scale:
                r = {n: k * scale for n, k in r.items()}
                p = {n: k * scale for n, k in p.items()}
            return side(r, nm) + extra + arrow + side(p, nm) + extra

        def efficiencies():
            names = draw(
                st.lists(st.sampled_from(species), max_size=4, unique=True)
            )
            return {
                nm(n): draw(st.sampled_from([0.0, 0.4, 0.375, 0.7, 1.0, 2.0, 0.0125, 6.5, 12.0, 3.6255]))
                for n in names
            }

        def default_efficiency(entry):
            if default_eff and draw(st.integers(0, 2)) == 0:
                value = draw(st.sampled_from([0.0, 0.0, 0.5, 2.0]))
                entry["default-efficiency"] = value
                if not value and draw(st.booleans()):
                    who = draw(st.sampled_from(species))
                    entry["efficiencies"] = {nm(who): draw(st.sampled_from([1.0, 0.7]))}

        if kind == "elementary":
            ir["rx"].append({"equation": equation(), "rate-constant": draw(rate)})
        elif kind == "fractional":
            scale = draw(st.sampled_from([0.5, 1.5]))
            ir["rx"].append(
                {"equation": equation(scale=scale), "rate-constant": draw(rate)}
            )
        elif kind == "orders":
            orders = {
                nm(n): draw(st.sampled_from([0.5, 1.0, 1.5, 2.0, 0.25])) for n in reac
            }
            entry = {
                "equation": equation(),
                "rate-constant": draw(rate),
                "orders": orders,
            }
            if draw(st.booleans()):
                extra = draw(st.sampled_from(species))
                if nm(extra) not in orders:
                    orders[nm(extra)] = draw(st.sampled_from([0.5, 1.0]))
                    entry["nonreactant-orders"] = True
            ir["rx"].append(entry)
        elif kind == "three-body":
            entry = {
                "equation": equation(" + M"),
                "type": "three-body",
                "rate-constant": draw(rate),
                "efficiencies": efficiencies(),
            }
            default_efficiency(entry)
            if collider_duplicates and draw(st.integers(0, 3)) == 0:
                who = draw(st.sampled_from(species))
                if who not in reac and who not in prod and not set(reac) & set(prod):
                    entry["duplicate"] = True
                    ir["rx"].append(
                        {
                            "equation": equation(f" + {nm(who)}"),
                            "type": "three-body",
                            "rate-constant": draw(rate),
                            "duplicate": True,
                        }
                    )
            ir["rx"].append(entry)
        elif kind == "collider":
            who = draw(st.sampled_from(species))
            if who in reac or who in prod or set(reac) & set(prod):
                ir["rx"].append({"equation": equation(), "rate-constant": draw(rate)})
            else:
                ir["rx"].append(
                    {
                        "equation": equation(f" + {nm(who)}"),
                        "type": "three-body",
                        "rate-constant": draw(rate),
                    }
                )
        elif kind in (
            "lindemann",
            "troe3",
            "troe4",
            "sri3",
            "sri5",
            "falloff-collider",
            "chemact",
            "chemact-troe",
            "chemact-sri",
        ):
            entry = {
                "equation": equation(" (+M)"),
                "type": "chemically-activated"
                if kind.startswith("chemact")
                else "falloff",
                "low-P-rate-constant": draw(rate),
                "high-P-rate-constant": draw(rate),
            }
            troe = {
                "A": draw(rounded(0.0, 1.2, 3)),
                "T3": draw(st.one_of(rounded(20.0, 3000.0, 1), st.sampled_from([1e-30, 1e30]))),
                "T1": draw(st.one_of(rounded(20.0, 6000.0, 1), st.sampled_from([1e-30, 1e30]))),
            }
            if kind == "troe4":
                troe["T2"] = draw(rounded(20.0, 9000.0, 1))
            sri = {
                "A": draw(rounded(0.1, 1.5, 3)),
                "B": draw(rounded(50.0, 900.0, 1)),
                "C": draw(rounded(100.0, 2000.0, 1)),
            }
            if kind == "sri5":
                sri["D"] = draw(rounded(0.5, 2.0, 3))
                sri["E"] = draw(rounded(-0.5, 0.5, 3))
            if kind.startswith("troe") or kind == "chemact-troe":
                entry["Troe"] = troe
            if kind.startswith("sri") or kind == "chemact-sri":
                entry["SRI"] = sri
            if kind == "falloff-collider":
                who = draw(st.sampled_from(species))
                entry["equation"] = equation(f" (+{nm(who)})")
            else:
                entry["efficiencies"] = efficiencies()
                default_efficiency(entry)
            ir["rx"].append(entry)
        elif kind == "plog":
            n = draw(st.integers(1, 4))
            pressures = sorted(
                draw(
                    st.sampled_from(
                        [1.25e-05, 0.001, 0.01, 0.0316, 0.1, 0.5, 1.0, 1.2345, 2.0, 10.0, 100.0, 1234.5]
                    )
                )
                for _ in range(n)
            )
            ir["rx"].append(
                {
                    "equation": equation(),
                    "type": "pressure-dependent-Arrhenius",
                    "rate-constants": [
                        dict({"P": f"{p} atm"}, **draw(rate)) for p in pressures
                    ],
                }
            )
        elif kind == "chebyshev":
            nt = draw(st.integers(1, 4))
            np_ = draw(st.integers(1, 4))
            data = [
                [draw(rounded(-1.0, 1.0, 4)) for _ in range(np_)] for _ in range(nt)
            ]
            data[0][0] = draw(rounded(4.0, 12.0, 4))
            ir["rx"].append(
                {
                    "equation": equation(),
                    "type": "Chebyshev",
                    "temperature-range": [
                        draw(st.sampled_from([290.0, 290.5, 300.0, 349.25, 500.0])),
                        draw(st.sampled_from([1999.75, 2000.0, 2500.5, 3000.0])),
                    ],
                    "pressure-range": draw(
                        st.sampled_from(
                            [
                                ["0.01 atm", "100 atm"],
                                ["0.0098692327 atm", "98.692327 atm"],
                                ["1.25e-05 atm", "1234.5 atm"],
                            ]
                        )
                    ),
                    "data": data,
                }
            )
        elif kind == "duplicate":
            for _ in range(draw(st.integers(2, 3))):
                ir["rx"].append(
                    {
                        "equation": equation(),
                        "rate-constant": draw(rate),
                        "duplicate": True,
                    }
                )
    return ir


TRICKY = [
    "NO",
    "Y",
    "n-C7H16",
    "C2H5(L)",
    "1,2-diol",
    "x'",
    "a#b",
    "Null",
    "1e5",
    "o-",
    "CH2[T]",
    "q:r",
]


def renaming(species):
    """Rename some species to names that are awkward for text formats."""
    free = [n for n in TRICKY if n not in species]
    return st.lists(
        st.tuples(st.sampled_from(species), st.sampled_from(free)),
        max_size=3,
        unique_by=(lambda t: t[0], lambda t: t[1]),
    ).map(dict)


@st.composite
def composition(draw, names, allow_zero=True, min_positive=1):
    """Weights (not normalised) for the named species."""
    out = {}
    for n in names:
        kind = draw(st.integers(0, 3))
        if kind == 0 and allow_zero:
            continue
        if kind == 1:
            out[n] = draw(st.sampled_from([1e-3, 1e-6, 1e-10]))
        else:
            out[n] = draw(rounded(0.01, 1.0, 2))
    while len(out) < min_positive:
        n = draw(st.sampled_from(names))
        out[n] = 1.0
    return out


@st.composite
def state(draw, names):
    return {
        "T": draw(rounded(300.0, 3000.0, 1)),
        "P": draw(st.sampled_from([1e3, 1e4, 101325.0, 1e6, 5e6])),
        "Y": draw(composition(names)),
    }


def mass_fractions(names, weights):
    """Normalised mass-fraction list in the order of names."""
    total = math.fsum(weights.get(n, 0.0) for n in names)
    return [weights.get(n, 0.0) / total for n in names]
