"""Reference definitions of the graph-based methods, term by term."""

import math


def reaction_terms(gas):
    """Per reaction: net stoichiometry, species taking part, net rate."""
    index = {n: k for k, n in enumerate(gas.species_names)}
    rates = gas.net_rates_of_progress if gas.n_reactions else []
    out = []
    for r, q in zip(gas.reactions(), rates):
        nu = {}
        for n, c in r.products.items():
            nu[index[n]] = nu.get(index[n], 0.0) + c
        for n, c in r.reactants.items():
            nu[index[n]] = nu.get(index[n], 0.0) - c
        part = {index[n] for n in r.reactants} | {index[n] for n in r.products}
        out.append((nu, part, float(q)))
    return out


def _contributions(terms, n):
    """For each species: list of (contribution, reaction number)."""
    rows = [[] for _ in range(n)]
    for k, (nu, part, q) in enumerate(terms):
        if q != 0.0:
            for a, c in nu.items():
                rows[a].append((c * q, k))
    return rows


def drg(terms, n):
    """Matrix of DRG coefficients; None for rows that cannot be resolved."""
    rows = _contributions(terms, n)
    out = []
    for a in range(n):
        total = math.fsum(abs(x) for x, _ in rows[a])
        if total != 0 and total < 1e-280:
            out.append(None)
            continue
        out.append(
            [
                0.0
                if total == 0 or a == b
                else math.fsum(abs(x) for x, k in rows[a] if b in terms[k][1]) / total
                for b in range(n)
            ]
        )
    return out


def _gross(row):
    prod = math.fsum(x for x, _ in row if x > 0)
    cons = math.fsum(-x for x, _ in row if x < 0)
    return max(prod, cons)


def drgep(terms, n):
    rows = _contributions(terms, n)
    out = []
    for a in range(n):
        total = _gross(rows[a])
        if total != 0 and total < 1e-280:
            out.append(None)
            continue
        out.append(
            [
                0.0
                if total == 0 or a == b
                else abs(math.fsum(x for x, k in rows[a] if b in terms[k][1])) / total
                for b in range(n)
            ]
        )
    return out


def pfa(terms, n):
    rows = _contributions(terms, n)
    bad = set()
    pro = [[0.0] * n for _ in range(n)]
    con = [[0.0] * n for _ in range(n)]
    for a in range(n):
        total = _gross(rows[a])
        if total == 0:
            continue
        if total < 1e-280:
            bad.add(a)
            continue
        for b in range(n):
            if a != b:
                pro[a][b] = (
                    math.fsum(x for x, k in rows[a] if x > 0 and b in terms[k][1])
                    / total
                )
                con[a][b] = (
                    math.fsum(-x for x, k in rows[a] if x < 0 and b in terms[k][1])
                    / total
                )
    out = []
    for a in range(n):
        row = []
        for b in range(n):
            if a == b:
                row.append(0.0)
                continue
            second = math.fsum(
                pro[a][m] * pro[m][b] + con[a][m] * con[m][b]
                for m in range(n)
                if m != a and m != b
            )
            row.append(pro[a][b] + con[a][b] + second)
        out.append(None if a in bad else row)
    if bad:  # second generations may pass through unresolved species
        return [None] * n
    return out


def reachable(matrix, targets, threshold):
    """Indices reachable from targets along edges >= threshold (BFS)."""
    n = len(matrix)
    seen = set(targets)
    todo = list(targets)
    while todo:
        a = todo.pop(0)
        for b in range(n):
            if b != a and b not in seen and matrix[a][b] >= threshold:
                seen.add(b)
                todo.append(b)
    return seen


def importance(matrices, targets, n):
    """Largest path product from any target in any matrix (fixed point)."""
    best = [0.0] * n
    for matrix in matrices:
        for t in targets:
            val = [0.0] * n
            val[t] = 1.0
            for _ in range(n + 1):
                new = list(val)
                for a in range(n):
                    if val[a] > 0:
                        for b in range(n):
                            if a != b and matrix[a][b] > 0:
                                p = val[a] * matrix[a][b]
                                if p > new[b]:
                                    new[b] = p
                if new == val:
                    break
                val = new
            best = [max(x, y) for x, y in zip(best, val)]
    return best
