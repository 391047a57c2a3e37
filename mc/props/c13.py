import itertools

import numpy as np

from mc.env import dreimac
from mc import families as F, ref
from mc.engine import Failed, Scenario

ASSUMPTIONS = [
    "n_neighbors counts the point itself, as in the implementation and in scikit-learn's graph of a training set",
    "where several points are equally far from a point any choice of neighbours is allowed: the distances must lie"
    " between those of the graph with all tied neighbours and the graph with none of them",
]
G = dreimac.GeometryUtils
EPS = 1e-9


def floyd(W):
    D = W.copy()
    for k in range(len(D)):
        D = np.minimum(D, D[:, k, None] + D[None, k, :])
    return D


def graphs(X, k):
    """Shortest-path distances with the fewest and with the most edges a nearest neighbour graph may have."""
    E = ref.pdist(X)
    n = len(X)
    few, many = np.full((n, n), np.inf), np.full((n, n), np.inf)
    np.fill_diagonal(few, 0)
    np.fill_diagonal(many, 0)
    for i in range(n):
        kth = np.sort(E[i])[k - 1]
        below = E[i] < kth - EPS
        upto = E[i] <= kth + EPS
        if upto.sum() == k:
            below = upto
        few[i, below] = E[i, below]
        many[i, upto] = E[i, upto]
    few, many = np.minimum(few, few.T), np.minimum(many, many.T)
    return floyd(few), floyd(many)


def verify(ctx, X, m, k):
    n = len(X)
    X0 = X.copy()
    got = ctx.call(G.landmark_geodesic_distance, X, m, k)
    ctx.check(np.array_equal(X, X0), "the input was modified")
    D, perm = np.asarray(got[0], float), np.asarray(got[1])
    ctx.check(D.shape == (m, n), "matrix of shape %s for %d landmarks of %d points", D.shape, m, n)
    ctx.check(sorted(perm.tolist()) == list(range(n)), "%s is not a permutation of the points", perm.tolist())
    ctx.check(perm[0] == 0, "starts at point %d", perm[0])
    hi, lo = graphs(X0, k)
    hi, lo = hi[np.ix_(perm[:m], perm)], lo[np.ix_(perm[:m], perm)]
    ctx.check(bool((D <= hi + EPS).all() and (D >= lo - EPS).all()),
              "distances %s, in the order %s they are %s", D.tolist(), perm.tolist(), lo.tolist())
    exact = np.array_equal(hi, lo)
    ctx.check(not np.isnan(D).any(), "undefined distances")
    S = D[:, :m]
    ctx.check(np.array_equal(np.isinf(S), np.isinf(S.T)) and
              bool((np.abs(np.where(np.isinf(S), 0, S) - np.where(np.isinf(S.T), 0, S.T)) < EPS).all()),
              "the distances between landmarks are not symmetric: %s", S.tolist())
    ctx.check(bool((np.diag(S) == 0).all()), "distance of a landmark to itself: %s", np.diag(S).tolist())
    ds = D[0]
    for i in range(1, m):
        left = ds[i:]
        ctx.check(ds[i] >= left.max() - EPS if np.isfinite(left.max()) else np.isinf(ds[i]),
                  "landmark %d is at distance %g of the earlier ones, another point at %g", i, ds[i], left.max())
        ds = np.minimum(ds, D[i])
    ctx.state(X0, m, k)
    ctx.outcome(perm, np.round(D, 6))
    ctx.note("graph_determined" if exact else "tied_neighbours")
    if np.isinf(D).any():
        ctx.note("disconnected")
    return D, perm


def clouds(points, n, landmarks, neighbors):
    P = np.asarray(points, float)

    def driver(ctx):
        X = P[[ctx.choose("p%d" % i, list(range(len(P)))) for i in range(n)]]
        m = ctx.choose("n_landmarks", landmarks or list(range(1, n + 1)))
        k = ctx.choose("n_neighbors", neighbors or list(range(1, n + 1)))
        verify(ctx, X, m, k)

    return driver


def usable(ctx):
    """The matrix is a rectangular distance matrix every coordinate class accepts."""
    c = [(np.cos(t), np.sin(t)) for t in np.arange(12) * np.pi / 6]
    g = F.lattice(3, 3) * 1.25
    X = {"circle": np.array(c), "two circles": np.vstack([np.array(c), np.array(c) * .8 + [3, 0]]),
         "repeated": np.vstack([c, c[:5]]), "grid without centre": g[[i for i in range(9) if i != 4]],
         "far apart": np.vstack([c, np.array(c) + [50, 0]])}[
        ctx.choose("cloud", ["circle", "two circles", "repeated", "grid without centre", "far apart"])]
    order = ctx.choose("order", [1, 5, 7])
    X = X[[(i * order) % len(X) for i in range(len(X))]] if np.gcd(order, len(X)) == 1 else X
    m = ctx.choose("n_landmarks", list(range(4, len(X))))
    k = ctx.choose("n_neighbors", [3, 4, 6])
    D, perm = verify(ctx, X, m, k)
    kind = ctx.choose("class", ["CircularCoords", "ToroidalCoords", "ProjectiveCoords", "LensCoords"])
    if np.isinf(D).any():
        ctx.prune()
    obj = ctx.call(getattr(dreimac, kind), D, m, distance_matrix=True)
    if not len(obj.dgms_[1]):
        return
    want = ref.Persistence(D, m, True, {"ProjectiveCoords": 2, "LensCoords": 3}.get(kind, 41), 1, raw_ripser)
    life = sorted(((e - b) for b, e, _ in want.classes[1]), reverse=True)
    got = np.sort(obj.dgms_[1][:, 1] - obj.dgms_[1][:, 0])[::-1]
    ctx.check(np.allclose(got, life), "persistence %s, of the landmarks %s", got.tolist(), life)
    r, _ = ctx.attempt(obj.get_coordinates, standard_range=False, perc=0.75)
    ctx.check(not isinstance(r, Failed), "%s", r)


def many(sizes):
    def driver(ctx):
        n = ctx.choose("n", sizes)
        d = ctx.choose("dimension", [2, 3, 1])
        shape = ctx.choose("shape", ["spread", "two pieces", "repeated"])
        X = np.mod(np.arange(n)[:, None] * np.sqrt([2.0, 3.0, 5.0][:d])[None, :] + 0.25, 1) * 4
        if shape == "two pieces":
            X[n // 3 :] += 40
        elif shape == "repeated":
            X[n // 2 :] = X[: n - n // 2]
        if n % 7:
            X = X[[(i * 7) % n for i in range(n)]]
        verify(ctx, X, ctx.choose("n_landmarks", [1, 7, n // 2, n]), ctx.choose("n_neighbors", [2, 4, 9, 33]))

    return driver


def large(sizes):
    def driver(ctx):
        n = ctx.choose("n", sizes)
        shape = ctx.choose("shape", ["spread", "two pieces"])
        X = np.mod(np.arange(n)[:, None] * np.sqrt([2.0, 3.0])[None, :] + 0.25, 1) * 4
        if shape == "two pieces":
            X[n // 3 :] += 40
        X = X[[(i * 7) % n for i in range(n)]]
        verify(ctx, X, ctx.choose("n_landmarks", [7, min(n, 300)]), ctx.choose("n_neighbors", [5, 70]))

    return driver


from mc.env import raw_ripser  # noqa: E402


def scenarios(tier):
    q = tier == "quick"
    grid = list(itertools.product(range(3), repeat=2))
    return [
        Scenario("plane", clouds(grid, 4, None, None), want=128),
        Scenario("line", clouds([[0], [1], [3], [7]], 5, None, None) if q else
                 clouds([[0], [1], [3], [7], [12]], 6, None, [1, 2, 3, 4]), want=128),
        Scenario("five", clouds([(0, 0), (1, 0), (0, 2), (3, 1)] if q else grid, 5, [3, 5], [2, 3]), want=128),
        Scenario("space", clouds(list(itertools.product((0, 1), (0, 2), (0, 3))), 3 if q else 4, None, None), want=64),
        Scenario("many", many([40, 130] if q else [40, 130, 300, 500]), want=64),
        Scenario("large", large([280, 1200] if q else [320, 600, 1200, 2100]), want=8),
        Scenario("usable", usable, want=128),
    ]
