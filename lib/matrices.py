"""Generated matrices of direct coefficients and thresholds that meet them."""

import math

import numpy as np
from hypothesis import strategies as st

from . import problems as pb

NICE = [0.01, 0.02, 0.03, 0.05, 0.1, 0.2, 0.29, 0.5, 0.57, 0.9, 1.0, 1e-3, 1e-4, 1e-5]


def _neighbour(v, k):
    for _ in range(abs(k)):
        v = math.nextafter(v, 2.0 if k > 0 else 0.0)
    return v


def coefficient(top=1.0):
    plain = [
        st.sampled_from(NICE),
        st.floats(1e-6, 1.0),
        st.integers(0, 120).map(lambda k: 10.0 ** (-k / 20)),
        st.tuples(st.sampled_from(NICE), st.sampled_from([-1, 1])).map(
            lambda t: _neighbour(*t)
        ),
    ]
    if top > 1.0:
        plain.append(st.floats(1.0, top))
    return st.one_of(plain).map(lambda v: min(v, top))


@st.composite
def matrix(draw, n, top=1.0):
    """n x n list of rows, zero diagonal."""
    rows = [[0.0] * n for _ in range(n)]
    kind = draw(st.integers(0, 3)) if n <= 14 else 0
    value = coefficient(top)
    if kind == 0:  # chain-like, with shortcuts
        order = draw(st.permutations(list(range(n))))
        for a, b in zip(order, order[1:]):
            rows[a][b] = draw(value)
    density = draw(st.sampled_from([0.5, 1.0, 1.5, 3.0] if n <= 14 else [0.0, 0.1, 0.5]))
    for _ in range(int(density * n)):
        a, b = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
        if a != b:
            rows[a][b] = draw(value)
    if kind == 1:  # cycles of strong edges
        cyc = draw(st.lists(st.integers(0, n - 1), min_size=2, max_size=n, unique=True))
        for a, b in zip(cyc, cyc[1:] + cyc[:1]):
            rows[a][b] = draw(st.sampled_from([1.0, 1.0, 0.9, 0.5, 0.1]))
    return rows


@st.composite
def network(draw, top=1.0, max_species=9, max_states=3, long=False):
    n = draw(st.integers(2, max_species))
    names = draw(
        st.lists(st.sampled_from(pb.NET_NAMES), min_size=n, max_size=n, unique=True)
    )
    if long and draw(st.integers(0, 7)) == 0:
        # long chains
        n = draw(st.integers(15, 60))
        names = [f"S{k}" for k in range(n)]
    matrices = [draw(matrix(n, top)) for _ in range(draw(st.integers(1, max_states)))]
    targets = draw(
        st.lists(st.sampled_from(names), min_size=1, max_size=min(3, n), unique=True)
    )
    return {"names": names, "matrices": matrices, "targets": targets}


@st.composite
def threshold(draw, case, values):
    """A threshold that often equals, or is next to, one of the values."""
    values = sorted({v for v in values if v > 0})
    k = draw(st.integers(0, 4))
    if values and k <= 2:
        v = draw(st.sampled_from(values))
        return [v, math.nextafter(v, 2.0), math.nextafter(v, 0.0)][k]
    if k == 3:
        return draw(st.sampled_from(NICE))
    return draw(st.floats(1e-6, 1.5))


def arrays(case):
    return [np.array(m, dtype=float) for m in case["matrices"]]


def model_case(case):
    """Problem whose model has the species of the network (no interactions used)."""
    names = case["names"]
    edges = [[[k], [(k + 1) % len(names)], 1.0] for k in range(len(names))]
    return {
        "net": {"names": names, "edges": edges},
        "n": [1, 0, 0],
        "states": [[{"T": 1000.0, "P": 101325.0, "Y": {names[0]: 1.0}}]],
        "file": "model.yaml",
        "give_phase": False,
    }
