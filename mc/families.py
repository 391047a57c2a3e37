"""Alphabets of inputs, as drivers for the choice engine."""
import itertools

import numpy as np


def metric(ctx, n, values, label="d", scale=1.0):
    """A metric on n labelled points with distances from `values`, one choice per pair."""
    D = np.zeros((n, n))
    for j in range(1, n):
        for i in range(j):
            ok = []
            for v in values:
                if all(abs(D[i, k] - D[j, k]) <= v <= D[i, k] + D[j, k] for k in range(i)):
                    ok.append(v)
            v = ctx.choose("%s%d%d" % (label, i, j), ok)
            D[i, j] = D[j, i] = v
    return D * scale


def is_metric(D):
    return bool((D[:, :, None] <= D[:, None, :] + D.T[None, :, :].transpose(0, 2, 1) + 1e-12).all())


def shortest(n, edges):
    D = np.full((n, n), np.inf)
    np.fill_diagonal(D, 0)
    for a, b, w in edges:
        D[a, b] = D[b, a] = min(D[a, b], w)
    for k in range(n):
        D = np.minimum(D, D[:, k][:, None] + D[k][None, :])
    return D


def circle_metric(gaps):
    g = np.array(gaps, float)
    pos = np.concatenate([[0], np.cumsum(g)[:-1]])
    L = g.sum()
    d = np.abs(pos[:, None] - pos[None, :])
    return np.minimum(d, L - d)


def cycle_edges(vs, w=1.0):
    return [(vs[i], vs[(i + 1) % len(vs)], w) for i in range(len(vs))]


def figure_eight(a, b):
    """Two cycles of lengths a and b sharing vertex 0."""
    v1 = list(range(a))
    v2 = [0] + list(range(a, a + b - 1))
    return shortest(a + b - 1, cycle_edges(v1) + cycle_edges(v2))


def theta(a, b, c):
    """Two vertices joined by three paths with a, b, c edges."""
    n, E = 2, []
    for m in (a, b, c):
        path = [0] + list(range(n, n + m - 1)) + [1]
        n += m - 1
        E += [(path[i], path[i + 1], 1.0) for i in range(m)]
    return shortest(n, E)


def dumbbell(a, b, m):
    """Two cycles joined by a path of m edges."""
    E = cycle_edges(list(range(a)))
    second = list(range(a, a + b))
    E += cycle_edges(second)
    n = a + b
    path = [0] + list(range(n, n + m - 1)) + [a]
    n += m - 1
    E += [(path[i], path[i + 1], 1.0) for i in range(m)]
    return shortest(n, E)


def disjoint(D1, D2, far):
    n, m = len(D1), len(D2)
    D = np.full((n + m, n + m), float(far))
    D[:n, :n], D[n:, n:] = D1, D2
    return D


def permuted(D, perm):
    return D[np.ix_(perm, perm)]


def clique_columns(D, thr, levels, limit=None, far=None):
    """Data points as columns of distances to all vertices of D: one for every clique of the edges
    shorter than thr and every assignment of a level (a fraction of thr/2) to its members, extended
    to the least distances compatible with the triangle inequality.  Only consistent ones."""
    n = len(D)
    r = thr / 2
    cols = []
    cliques = [(v,) for v in range(n)]
    for k in range(1, n + 1):
        if k > 1:
            cliques = [s + (v,) for s in cliques for v in range(s[-1] + 1, n) if all(D[a, v] < thr for a in s)]
        for s in cliques:
            for lv in itertools.product(levels, repeat=k):
                d = {v: x * r for v, x in zip(s, lv)}
                if any(d[a] + d[b] < D[a, b] or abs(d[a] - d[b]) > D[a, b]
                       for a, b in itertools.combinations(s, 2)):
                    continue
                col = np.array([d[v] if v in d else min(d[a] + D[a, v] for a in s) for v in range(n)])
                if any(col[v] < r for v in range(n) if v not in d):
                    continue
                cols.append(col)
    C = np.array(cols).T if cols else np.zeros((n, 0))
    return C if limit is None else C[:, :limit]


def lattice(*dims):
    return np.array(list(itertools.product(*[range(d) for d in dims])), float)


def cross_polytope(d, w=2.0):
    """Vertices +-e_i, distance 1 except w between antipodes."""
    n = 2 * d
    D = np.ones((n, n))
    np.fill_diagonal(D, 0)
    for i in range(d):
        D[2 * i, 2 * i + 1] = D[2 * i + 1, 2 * i] = w
    return D


# The 11-vertex flag triangulation of the projective plane, from the half cuboctahedron-like
# construction: checked by the drivers that use it (Euler characteristic 1, clique complex closed).
def graph_metric(n, edges, near=1.0, far=2.0):
    D = np.full((n, n), far)
    np.fill_diagonal(D, 0)
    for a, b in edges:
        D[a, b] = D[b, a] = near
    return D


RP2_EDGES = [(0, 1), (0, 4), (0, 5), (0, 6), (0, 7), (0, 8), (1, 3), (1, 5), (1, 6), (1, 9), (1, 10), (1, 11), (2, 3),
             (2, 4), (2, 5), (2, 6), (2, 7), (2, 9), (3, 5), (3, 7), (3, 8), (3, 10), (4, 5), (4, 8), (4, 9), (4, 10),
             (4, 11), (6, 7), (6, 9), (7, 8), (8, 10), (9, 11), (10, 11)]
MOORE3_EDGES = [(0, 1), (0, 3), (0, 5), (0, 6), (0, 8), (0, 9), (0, 11), (0, 13), (1, 2), (1, 3), (1, 4), (1, 6), (1, 7),
                (1, 9), (1, 10), (2, 4), (2, 5), (2, 7), (2, 8), (2, 10), (2, 11), (2, 13), (3, 4), (3, 11), (3, 12),
                (4, 5), (4, 12), (5, 6), (5, 12), (5, 13), (6, 7), (6, 12), (7, 8), (7, 12), (8, 9), (8, 12), (8, 13),
                (9, 10), (9, 12), (10, 11), (10, 12), (11, 12), (11, 13)]


def rp2():
    """A flag triangulation of the projective plane with 12 vertices, as a {1, 2} metric."""
    return graph_metric(12, RP2_EDGES)


def moore3():
    """A flag triangulation of the Moore space M(Z/3, 1) with 14 vertices."""
    return graph_metric(14, MOORE3_EDGES)


def suspend(D):
    n = len(D)
    S = np.ones((n + 2, n + 2))
    S[:n, :n] = D
    S[n, n + 1] = S[n + 1, n] = 2.0
    np.fill_diagonal(S, 0)
    return S


def fat_circle(k, m):
    """A k-cycle with triangles glued to m of its edges (so that lifts can fail to be cocycles)."""
    E = [(i, (i + 1) % k) for i in range(k)]
    for t in range(m):
        E += [(k + t, t), (k + t, (t + 1) % k)]
    return graph_metric(k + m, E)


def wedge(D1, D2):
    """One-point union at vertex 0 of both, path metric through it, capped at 2."""
    n, m = len(D1), len(D2)
    D = np.zeros((n + m - 1, n + m - 1))
    D[:n, :n] = D1
    D[n:, n:] = D2[1:, 1:]
    D[:n, n:] = D1[:, :1] + D2[:1, 1:]
    D[n:, :n] = D[:n, n:].T
    return D
