"""Independent field-by-field comparison of Cantera models, and small helpers."""

import math
import os

import cantera as ct
import numpy as np

from . import mechgen
from .harness import Inconclusive, Violation, check

ct.suppress_thermo_warnings()


def load_ir(ir, path="model.yaml", phase=""):
    """Write a mechanism IR and load it; invalid generated input is discarded."""
    mechgen.write_ir(ir, path)
    try:
        return ct.Solution(path, phase)
    except Exception as exc:  # noqa: BLE001
        text = " ".join(str(exc).split())
        raise Inconclusive("generated model does not load: " + text[80:240]) from None


def close(a, b, rtol, atol=0.0):
    if a == b:
        return True
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def all_close(a, b, rtol, atol=0.0):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    with np.errstate(invalid="ignore"):
        ok = np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b))
    return bool(np.all(ok | (a == b) | (np.isnan(a) & np.isnan(b))))


def is_default(v):
    return v is None or v == 0 or v == {} or v == ""


def plain_diff(a, b, rtol, where=""):
    """First difference of two nested plain data structures (None if equal)."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return f"{where}.{k} only on one side"
            d = plain_diff(a[k], b[k], rtol, f"{where}.{k}")
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f"{where}: lengths {len(a)} and {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = plain_diff(x, y, rtol, f"{where}[{i}]")
            if d:
                return d
        return None
    num = (int, float, np.floating, np.integer)
    if isinstance(a, num) and isinstance(b, num) and not isinstance(a, bool):
        if close(float(a), float(b), rtol):
            return None
        return f"{where}: {a!r} != {b!r}"
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return plain_diff(np.asarray(a).tolist(), np.asarray(b).tolist(), rtol, where)
    return None if a == b else f"{where}: {a!r} != {b!r}"


TRANSPORT = (
    "geometry",
    "diameter",
    "well_depth",
    "dipole",
    "polarizability",
    "rotational_relaxation",
    "acentric_factor",
    "dispersion_coefficient",
    "quadrupole_polarizability",
)


def species_diff(s1, s2, rtol=1e-12):
    if s1.name != s2.name:
        return f"name {s1.name} != {s2.name}"
    if dict(s1.composition) != dict(s2.composition):
        return f"{s1.name}: composition {s1.composition} != {s2.composition}"
    if s1.charge != s2.charge:
        return f"{s1.name}: charge"
    t1, t2 = s1.thermo, s2.thermo
    if type(t1) is not type(t2) or not all_close(t1.coeffs, t2.coeffs, rtol, 1e-300):
        return f"{s1.name}: thermo coefficients {t1.coeffs} != {t2.coeffs}"
    for a in ("min_temp", "max_temp", "reference_pressure"):
        if not close(getattr(t1, a), getattr(t2, a), rtol):
            return f"{s1.name}: thermo {a}"
    r1, r2 = s1.transport, s2.transport
    if (r1 is None) != (r2 is None):
        return f"{s1.name}: transport data only on one side"
    if r1 is not None:
        for a in TRANSPORT:
            v, w = getattr(r1, a), getattr(r2, a)
            if isinstance(v, str):
                if v != w:
                    return f"{s1.name}: transport {a} {v} != {w}"
            elif not close(v, w, rtol, 1e-300):
                return f"{s1.name}: transport {a} {v} != {w}"
    return None


def species_list_diff(l1, l2, rtol=1e-12):
    n1, n2 = [s.name for s in l1], [s.name for s in l2]
    if n1 != n2:
        return f"species {n1} != {n2}"
    for a, b in zip(l1, l2):
        d = species_diff(a, b, rtol)
        if d:
            return d
    return None


def rate_data(rate):
    """Parameters of a rate in SI units as plain data."""
    out = {"kind": type(rate).__name__}

    def arr(r):
        return [r.pre_exponential_factor, r.temperature_exponent, r.activation_energy]

    if hasattr(rate, "low_rate"):
        out["low"] = arr(rate.low_rate)
        out["high"] = arr(rate.high_rate)
        out["coeffs"] = [float(x) for x in rate.falloff_coeffs]
        out["chemact"] = bool(rate.chemically_activated)
    elif isinstance(rate, ct.PlogRate):
        out["rates"] = [[p] + arr(r) for p, r in rate.rates]
    elif isinstance(rate, ct.ChebyshevRate):
        out["T"] = list(rate.temperature_range)
        out["P"] = list(rate.pressure_range)
        out["data"] = np.asarray(rate.data).tolist()
    else:
        out["arr"] = arr(rate)
    return out


def third_body_data(rxn):
    tb = rxn.third_body
    if tb is None:
        return None
    return {
        "name": tb.name,
        "default": tb.default_efficiency,
        "eff": dict(tb.efficiencies),
    }


def reaction_data(rxn):
    return {
        "equation": rxn.equation,
        "type": rxn.reaction_type,
        "reactants": dict(rxn.reactants),
        "products": dict(rxn.products),
        "reversible": bool(rxn.reversible),
        "orders": dict(rxn.orders),
        "rate": rate_data(rxn.rate),
        "third": third_body_data(rxn),
    }


def set_state(gas, names, case):
    """Set T, P and normalised weights; returns False if no species is present."""
    total = math.fsum(case["Y"].get(n, 0.0) for n in names)
    if total <= 0:
        return False
    names = set(names)
    y = np.array(
        [case["Y"].get(n, 0.0) / total if n in names else 0.0 for n in gas.species_names]
    )
    gas.TPY = case["T"], case["P"], y
    return True


def file_bytes(path):
    with open(path, "rb") as fh:
        return fh.read()


def tree(path="."):
    """Relative names of all files below a directory."""
    out = set()
    for root, _, files in os.walk(path):
        for f in files:
            out.add(os.path.relpath(os.path.join(root, f), path))
    return out


__all__ = [n for n in dir() if not n.startswith("_")]
