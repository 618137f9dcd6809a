"""C14: limbo species are those of the final model below the upper threshold."""

import math

from hypothesis import strategies as st

from lib import problems as pb
from lib.harness import Inconclusive, Outcome, Suite, check

PROPERTY = "C14"
RULE = (
    "random networks and mechanisms with up to three cases and two states per case, reduced "
    "by DRG, DRGEP or PFA with and without an upper threshold (also one that equals a "
    "coefficient); the limbo species reported are compared with a reference, and a following "
    "sensitivity analysis must not remove any other species; non-trivial: the reference has "
    "at least one limbo species and at least one species selected at the upper threshold "
    "besides targets and retained ones"
)
ASSUMPTIONS = [
    "simulations are replaced by prescribed metrics",
    "direct interaction coefficients are those of the package (decided by C05 to C07)",
]


@st.composite
def strategy(draw):
    mode = draw(st.sampled_from(["graph", "graph", "none", "both"]))
    out = draw(
        pb.problem(upper="maybe" if mode == "none" else "always", paths=False)
    )
    out["mode"] = "both" if mode == "both" else "graph"
    if mode == "both":
        out["kind"] = draw(st.sampled_from(["initial", "greedy"]))
    if mode != "none" and draw(st.booleans()):
        # an upper threshold at, or one rounding step from, a critical value
        out["pick"] = [draw(st.integers(0, 8)), draw(st.sampled_from([0.0, 0.0, -1.0, 9.0]))]
    if draw(st.booleans()):
        out["limit"] = draw(st.sampled_from([0.0, 2.0, 5.0, 12.5, 25.0]))
    return out


def run(case):
    case, gas = pb.prepare(case)
    names = list(gas.species_names)
    protected = set(case["targets"]) | set(case["safe"])
    matrices = pb.matrices_of(case, gas)
    critical = pb.critical_values(
        matrices, [names.index(t) for t in case["targets"]], case["method"] == "DRGEP"
    )
    pick = case.get("pick")
    values = sorted({v for v in critical if 0 < v < float("inf")})
    if pick and values:
        value = values[-1 - pick[0] % len(values)]
        case["upper"] = math.nextafter(value, pick[1]) if pick[1] else value
    upper = case["upper"]
    if upper and case["method"] == "DRGEP":
        for v in critical:
            if v != upper and abs(v - upper) < 1e-9 * upper:
                raise Inconclusive("importance at the upper threshold")
            if v == upper and not any((m == upper).any() for m in matrices):
                raise Inconclusive("importance at the upper threshold")
    alone = pb.run_problem(dict(case, mode="graph"))
    if alone.model is None:
        return Outcome(False, ["gave up"])
    final = list(alone.model.model.species_names)
    want = set()
    if upper:
        want = {
            s for s in final if critical[names.index(s)] < upper and s not in protected
        }
    got = list(alone.model.limbo_species)
    check(
        set(got) == want and len(got) == len(set(got)),
        "{} reports the limbo species {} at upper threshold {}, expected {} (final model {}, "
        "critical values {})",
        case["method"],
        sorted(got),
        upper,
        sorted(want),
        sorted(final),
        dict(zip(names, critical)),
    )
    labels = {case["method"], "upper" if upper else "no upper", f"limbo: {min(len(want), 4)}"}
    if case["mode"] == "both":
        labels.add("followed by sensitivity analysis")
        res = pb.run_problem(case)
        must = set(final) - want
        kept = set(res.model.model.species_names)
        check(
            must <= kept,
            "the analysis removed {}, not limbo species {}",
            sorted(must - kept),
            sorted(want),
        )
        # what comes after the evaluations of the method alone is the analysis
        for e in res.log[len(alone.log) :]:
            check(
                must <= set(e.species),
                "the analysis tried to remove {}, limbo species are {}",
                sorted(must - set(e.species)),
                sorted(want),
            )
    selected = [
        s
        for s in final
        if upper and critical[names.index(s)] >= upper and s not in protected
    ]
    return Outcome(bool(want) and bool(selected), labels)


SUITES = [Suite("limbo", strategy, run, 1200, 16000, hang=120)]
