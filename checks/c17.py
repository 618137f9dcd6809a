"""C17: error of a candidate against exact rational arithmetic."""

from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from lib.harness import Outcome, Suite, check

PROPERTY = "C17"
RULE = (
    "pairs of positive metric vectors (1 to 12 values over twelve decades: equal, close, "
    "larger, smaller, zero in the candidate), as one-dimensional arrays, in every order and "
    "scaled; the returned error is compared with exact rational arithmetic; non-trivial: two "
    "or more metrics that differ"
)
ASSUMPTIONS = ["metrics of the original model are positive (C22)"]


@st.composite
def case(draw):
    n = draw(st.integers(1, 12))
    m0, m = [], []
    zeros = draw(st.integers(0, 3)) == 0
    for _ in range(n):
        a = 10.0 ** draw(st.floats(-9, 4)) * draw(st.floats(1.0, 9.9))
        how = draw(st.sampled_from(["equal", "close", "near", "any", "large", "any"]))
        if how == "equal":
            b = a
        elif how == "close":
            b = a * (1 + draw(st.floats(-1e-9, 1e-9)))
        elif how == "near":
            b = a * (1 + draw(st.floats(-0.3, 0.3)))
        elif how == "large":
            b = a * 10.0 ** draw(st.floats(0, 8))
        else:
            b = a * draw(st.floats(0.01, 3.0))
        m0.append(a)
        m.append(b)
    if zeros:
        for i in draw(st.sets(st.integers(0, n - 1), min_size=1)):
            m[i] = 0.0
    if draw(st.integers(0, 9)) == 0:
        m = list(m0)
    order = draw(st.permutations(range(n)))
    return {"m0": m0, "m": m, "order": list(order), "scale": draw(st.sampled_from([1e-6, 2.0, 1000.0]))}


def run(case):
    from pymars.sampling import calculate_error

    a, b = np.array(case["m0"]), np.array(case["m"])
    keep = a.copy(), b.copy()
    err = calculate_error(a, b)
    check(np.array_equal(keep[0], a) and np.array_equal(keep[1], b), "metrics were modified")
    check(np.ndim(err) == 0, "error is not a number: {}", err)
    labels = set()
    if (b == 0).any():
        check(err == 100.0, "error {} with a zero metric", err)
        labels.add("zero metric")
    else:
        exact = max(
            100 * abs(Fraction(x) - Fraction(y)) / Fraction(x) for x, y in zip(case["m0"], case["m"])
        )
        check(
            abs(Fraction(float(err)) - exact) <= exact * Fraction(1, 10**9) + Fraction(1, 10**12),
            "error {} instead of {}",
            err,
            float(exact),
        )
        if exact == 0:
            check(err == 0.0, "error {} for equal metrics", err)
            labels.add("equal")
        if exact > 100:
            labels.add("beyond 100 %")
    order = case["order"]
    check(
        calculate_error(a[order], b[order]) == err,
        "error depends on the order of the metrics: {} and {}",
        calculate_error(a[order], b[order]),
        err,
    )
    scaled = calculate_error(a * case["scale"], b * case["scale"])
    check(abs(scaled - err) <= 1e-9 * abs(err) + 1e-12, "error depends on units: {} {}", scaled, err)
    return Outcome(sum(x != y for x, y in zip(case["m0"], case["m"])) > 1, labels)


SUITES = [Suite("error", case, run, 6000, 100000)]
