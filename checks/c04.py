"""C04: compare_models is True exactly for equivalent models."""

import copy
import json

import cantera as ct
from hypothesis import strategies as st

from lib import mechgen as mg
from lib.harness import Inconclusive, Outcome, Suite, check

PROPERTY = "C04"
RULE = (
    "a random mechanism and a copy of it with permuted species, reactions and equation "
    "terms, in most cases with exactly one semantic change; non-trivial: the copy "
    "carries a change, or is a permutation of a model with reactions"
)
ASSUMPTIONS = [
    "changes are at least 0.1 % of the value changed; missing transport data only need a symmetric answer",
    "both models are loadable by Cantera",
]


def token_map(equation, f):
    out = []
    for tok in equation.split(" "):
        if tok.startswith("(+") and tok.endswith(")") and tok != "(+M)":
            out.append("(+" + f(tok[2:-1]) + ")")
        else:
            out.append(f(tok))
    return " ".join(out)


def permute_equation(equation, flip):
    """Write plain equations with their terms in reverse order."""
    if not flip or "(+" in equation or " M" in equation:
        return equation
    arrow = " <=> " if " <=> " in equation else " => "
    left, right = equation.split(arrow)
    return (
        " + ".join(reversed(left.split(" + ")))
        + arrow
        + " + ".join(reversed(right.split(" + ")))
    )


def bump(v, how):
    if how == "up":
        return v * 1.01 if v else 0.01
    return v * 0.998 if v else -0.02


def rates_of(r):
    """All (container, label) holding Arrhenius parameters."""
    out = []
    for k in ("rate-constant", "low-P-rate-constant", "high-P-rate-constant"):
        if k in r:
            out.append(r[k])
    out += r.get("rate-constants", [])
    return out


def mutations(doc):
    """Names of the changes applicable to a document."""
    ms = ["thermo", "thermo-range", "rename", "composition", "drop-species"]
    if any("transport" in s for s in doc["species"]):
        ms += ["transport", "transport", "drop-transport", "geometry"]
    rx = doc.get("reactions", [])
    if rx:
        ms += ["drop-reaction", "reversible", "reverse", "scale", "type"] + [
            "rate"
        ] * 4
        if any("Troe" in r or "SRI" in r for r in rx):
            ms += ["falloff"] * 3 + ["falloff-remove", "falloff-extend"]
        if any("efficiencies" in r for r in rx):
            ms += ["efficiency"] * 3 + ["default-efficiency"]
        if any("orders" in r for r in rx):
            ms += ["orders"] * 3
        if any("data" in r for r in rx):
            ms += ["chebyshev"] * 3 + ["chebyshev-range", "chebyshev-size"]
        if any("rate-constants" in r for r in rx):
            ms += ["plog-pressure", "plog-size"]
        if any(
            r.get("duplicate") and r.get("type") == "three-body" for r in rx
        ):
            ms += ["duplicate-flag"] * 2
    return ms


def mutate(doc, kind, a, b, how):
    """Apply one change; a, b select where.  Returns False if impossible."""
    species = doc["species"]
    phase = doc["phases"][-1]
    rx = doc.get("reactions", [])

    def pick(seq, k):
        return seq[k % len(seq)] if seq else None

    s = pick(species, a)
    r = pick(rx, a)
    used = set()
    for q in rx:
        token_map(q["equation"], lambda t: used.add(t) or t)
        used |= set(q.get("efficiencies", {})) | set(q.get("orders", {}))
    unused = [x for x in species if x["name"] not in used]

    if kind == "thermo":
        row = pick(s["thermo"]["data"], b)
        k = (b // 2) % 7
        ref = max(abs(row[k]), {5: 100.0, 6: 1.0, 0: 1.0}.get(k, 1e-8 / 300.0 ** (k - 1)))
        row[k] += ref * (0.01 if how == "up" else -0.004)
    elif kind == "thermo-range":
        t = s["thermo"]
        k = [0, 2, 3][b % 3]
        if k == 3:
            t["reference-pressure"] = "1 bar" if how == "up" else "0.9 atm"
        else:
            t["temperature-ranges"][k] += [20.0, 0.0, -100.0][k]
    elif kind == "rename":
        old = s["name"]
        new = old.lower() if old.lower() != old else old + "x"
        if new in [x["name"] for x in species]:
            return False

        def f(t):
            return new if t == old else t

        s["name"] = new
        for p in doc["phases"]:
            p["species"] = [f(n) for n in p["species"]]
        for q in rx:
            q["equation"] = token_map(q["equation"], f)
            for key in ("efficiencies", "orders"):
                if key in q:
                    q[key] = {f(n): v for n, v in q[key].items()}
    elif kind == "composition":
        s = pick(unused, a)
        if s is None:
            return False
        e = sorted(s["composition"])[b % len(s["composition"])]
        s["composition"] = dict(s["composition"], **{e: s["composition"][e] + 1})
    elif kind == "drop-species":
        s = pick(unused, a)
        if s is None or len(species) < 2:
            return False
        doc["species"] = [x for x in species if x is not s]
        for p in doc["phases"]:
            p["species"] = [n for n in p["species"] if n != s["name"]]
    elif kind == "transport":
        s = pick([x for x in species if "transport" in x], a)
        key = [
            "diameter",
            "well-depth",
            "dipole",
            "polarizability",
            "rotational-relaxation",
            "acentric-factor",
            "dispersion-coefficient",
            "quadrupole-polarizability",
        ][b % 8]
        t = s["transport"]
        if t["geometry"] == "atom" and key == "rotational-relaxation":
            return False
        t[key] = bump(t.get(key, 0.0), "up")
    elif kind == "geometry":
        s = pick([x for x in species if "transport" in x], a)
        t = s["transport"]
        if t["geometry"] == "atom":
            return False
        t["geometry"] = "linear" if t["geometry"] == "nonlinear" else "nonlinear"
        # Cantera checks the geometry against the heat capacity
        if len(s["composition"]) + sum(s["composition"].values()) < 4:
            return False
    elif kind == "drop-transport":
        for p in doc["phases"]:
            p.pop("transport", None)
        if how == "up":
            for x in species:
                x.pop("transport", None)
        else:
            pick([x for x in species if "transport" in x], a).pop("transport")
    elif kind == "drop-reaction":
        if len(rx) == 1:
            del doc["reactions"]
            for p in doc["phases"]:
                p["reactions"] = "none"
        else:
            del rx[a % len(rx)]
    elif kind == "reversible":
        if " <=> " in r["equation"]:
            r["equation"] = r["equation"].replace(" <=> ", " => ")
        else:
            if "orders" in r:
                return False
            r["equation"] = r["equation"].replace(" => ", " <=> ")
    elif kind == "reverse":
        if "orders" in r or "(+" in r["equation"]:
            return False
        arrow = " <=> " if " <=> " in r["equation"] else " => "
        left, right = r["equation"].split(arrow)
        r["equation"] = right + arrow + left
    elif kind == "scale":
        if r.get("type", "elementary") != "elementary" or "orders" in r:
            return False
        arrow = " <=> " if " <=> " in r["equation"] else " => "

        def doubled(text):
            parts = []
            for term in text.split(" + "):
                bits = term.split(" ")
                k = float(bits[0]) if len(bits) == 2 else 1.0
                parts.append(f"{2 * k:g} {bits[-1]}")
            return " + ".join(parts)

        left, right = r["equation"].split(arrow)
        r["equation"] = doubled(left) + arrow + doubled(right)
    elif kind == "type":
        t = r.get("type", "elementary")
        if t == "falloff" and "SRI" not in r:
            if "(+M)" not in r["equation"]:
                return False
            r["type"] = "chemically-activated"
        elif t == "chemically-activated":
            r["type"] = "falloff"
        elif t == "elementary" and "orders" not in r:
            if how == "up":
                r["type"] = "pressure-dependent-Arrhenius"
                r["rate-constants"] = [dict({"P": "1 atm"}, **r.pop("rate-constant"))]
            else:
                arrow = " <=> " if " <=> " in r["equation"] else " => "
                left, right = r["equation"].split(arrow)
                r["equation"] = f"{left} + M{arrow}{right} + M"
                r["type"] = "three-body"
        else:
            return False
    elif kind == "rate":
        places = rates_of(r)
        if not places:
            return False
        p = pick(places, b)
        key = ["A", "A", "b", "Ea"][(b // 3) % 4]
        if key == "A":
            p["A"] *= 1.01 if how == "up" else 0.998
        elif key == "b":
            p["b"] += 0.01 if how == "up" else -0.02
        else:
            p["Ea"] += max(abs(p["Ea"]) * 0.01, 2.0)
    elif kind == "falloff":
        r = pick([q for q in rx if "Troe" in q or "SRI" in q], a)
        p = r.get("Troe") or r.get("SRI")
        key = sorted(p)[b % len(p)]
        p[key] = p[key] * 1.01 if p[key] else 0.01
    elif kind == "falloff-remove":
        r = pick([q for q in rx if "Troe" in q or "SRI" in q], a)
        r.pop("Troe", None)
        r.pop("SRI", None)
    elif kind == "falloff-extend":
        r = pick([q for q in rx if "Troe" in q or "SRI" in q], a)
        if "Troe" in r:
            if "T2" in r["Troe"]:
                del r["Troe"]["T2"]
            else:
                r["Troe"]["T2"] = 1000.0
        elif "D" in r["SRI"]:
            if (r["SRI"]["D"], r["SRI"]["E"]) == (1.0, 0.0):
                return False
            del r["SRI"]["D"], r["SRI"]["E"]
        else:
            r["SRI"].update(D=1.5, E=0.2)
    elif kind == "efficiency":
        r = pick([q for q in rx if "efficiencies" in q], a)
        eff = r["efficiencies"]
        default = r.get("default-efficiency", 1.0)
        k = b % 3
        if k == 0:
            free = [x["name"] for x in species if x["name"] not in eff]
            if not free:
                return False
            eff[pick(free, b // 3)] = default + 0.5
        else:
            if not eff:
                return False
            name = pick(sorted(eff), b // 3)
            if k == 1 and eff[name] != default:
                del eff[name]
            else:
                eff[name] = eff[name] * 1.01 if eff[name] else 0.3
    elif kind == "default-efficiency":
        r = pick([q for q in rx if "efficiencies" in q], a)
        if len(r["efficiencies"]) == len(species):
            return False
        r["default-efficiency"] = r.get("default-efficiency", 1.0) + 0.25
    elif kind == "orders":
        r = pick([q for q in rx if "orders" in q], a)
        o = r["orders"]
        name = pick(sorted(o), b)
        k = (b // 4) % 2
        if k == 0 or r.get("nonreactant-orders"):
            o[name] += 0.25
        else:
            stoich = {}
            for term in r["equation"].split(" => ")[0].split(" + "):
                bits = term.split(" ")
                n = float(bits[0]) if len(bits) == 2 else 1.0
                stoich[bits[-1]] = stoich.get(bits[-1], 0.0) + n
            if o[name] == stoich.get(name):
                return False
            del o[name]
            if not o:
                del r["orders"]
    elif kind == "chebyshev":
        r = pick([q for q in rx if "data" in q], a)
        row = pick(r["data"], b)
        k = (b // 3) % len(row)
        row[k] += max(abs(row[k]) * 0.01, 1e-4)
    elif kind == "chebyshev-range":
        r = pick([q for q in rx if "data" in q], a)
        if b % 2:
            r["temperature-range"][b // 2 % 2] += 50.0
        else:
            r["pressure-range"][b // 2 % 2] = ["0.02 atm", "90 atm"][b // 2 % 2]
    elif kind == "chebyshev-size":
        r = pick([q for q in rx if "data" in q], a)
        if b % 2:
            r["data"].append([0.25] * len(r["data"][0]))
        else:
            for row in r["data"]:
                row.append(0.25)
    elif kind == "plog-pressure":
        r = pick([q for q in rx if "rate-constants" in q], a)
        p = pick(r["rate-constants"], b)
        p["P"] = f"{float(p['P'].split()[0]) * 1.01} atm"
    elif kind == "plog-size":
        r = pick([q for q in rx if "rate-constants" in q], a)
        r["rate-constants"].append(dict(r["rate-constants"][-1], P="300 atm"))
    elif kind == "duplicate-flag":
        found = [q for q in rx if q.get("duplicate") and q.get("type") == "three-body"]
        if len(found) < 2:
            return False
        for q in found:
            del q["duplicate"]
    else:
        raise ValueError(kind)
    return True


def rate_strategy():
    return st.sampled_from([0, 0, 1]).flatmap(
        lambda k: mg.arrhenius(-14, 4) if k else mg.arrhenius()
    )


@st.composite
def case(draw):
    ir = draw(
        mg.mechanism(
            min_species=2, max_species=7, min_reactions=2, rename=True,
            rates=rate_strategy(),
        )
    )
    doc = mg.document(ir)
    kind = draw(st.sampled_from(["none"] + mutations(doc)))
    return {
        "ir": ir,
        "kind": kind,
        "at": [draw(st.integers(0, 40)), draw(st.integers(0, 60))],
        "how": draw(st.sampled_from(["up", "down"])),
        "species": draw(st.permutations(range(len(ir["sp"])))),
        "reactions": draw(st.permutations(range(len(ir["rx"])))),
        "flip": draw(st.booleans()),
        "via": draw(st.sampled_from(["doc", "doc", "written"])),
    }


def build(doc, path):
    mg.write_doc(doc, path)
    try:
        return ct.Solution(path)
    except Exception as exc:  # noqa: BLE001
        text = " ".join(str(exc).split())
        raise Inconclusive("does not load: " + text[80:200]) from None


def thermo_differs(first, second):
    """Clearly visible difference in a property at 500, 1000 or 2000 K?"""
    for a in first.species():
        b = second.species(a.name)
        for t in (500.0, 1000.0, 2000.0):
            for f in ("cp", "h", "s"):
                x, y = getattr(a.thermo, f)(t), getattr(b.thermo, f)(t)
                if abs(x - y) > 1e-4 * max(abs(x), abs(y)):
                    return True
    return False


def run(case):
    from pymars.tools import compare_models

    doc = mg.document(case["ir"])
    other = copy.deepcopy(doc)
    kind = case["kind"]
    if kind != "none":
        if not mutate(other, kind, case["at"][0], case["at"][1], case["how"]):
            raise Inconclusive("change not applicable")
        if json.dumps(other, sort_keys=True) == json.dumps(doc, sort_keys=True):
            raise Inconclusive("change without effect")
    # permute
    if len(other["species"]) == len(case["species"]):
        other["species"] = [other["species"][k] for k in case["species"]]
        other["phases"][-1]["species"] = [s["name"] for s in other["species"]]
    if len(other.get("reactions", [])) == len(case["reactions"]) and case["reactions"]:
        other["reactions"] = [other["reactions"][k] for k in case["reactions"]]
    for r in other.get("reactions", []):
        r["equation"] = permute_equation(r["equation"], case["flip"])
    first = build(doc, "first.yaml")
    second = build(other, "second.yaml")
    if case["via"] == "written":
        second.write_yaml("second_w.yaml")
        second = ct.Solution("second_w.yaml")
    expected = kind == "none"
    undecided = kind == "drop-transport"  # missing data cannot be compared
    if kind == "thermo" and not thermo_differs(first, second):
        raise Inconclusive("thermo change too small")
    ab = compare_models(first, second)
    ba = compare_models(second, first)
    check(
        bool(ab) == expected or undecided,
        "compare_models(a, b) = {} where b is {}",
        ab,
        "a permuted copy" if expected else f"a copy with a changed {kind}",
    )
    check(bool(ba) == bool(ab), "compare_models(b, a) = {} but (a, b) = {}", ba, ab)
    check(compare_models(first, first), "a model differs from itself")
    labels = [kind, "via " + case["via"]]
    return Outcome(kind != "none" or len(case["reactions"]) > 1, labels)


SUITES = [Suite("pairs", case, run, 7000, 200000)]
