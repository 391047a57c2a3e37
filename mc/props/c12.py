import itertools

import numpy as np

from mc.env import dreimac
from mc import families as F, ref
from mc.engine import Failed, Scenario

ASSUMPTIONS = [
    "where several points are equally far any of them may be chosen; sampling the cloud and sampling its matrix are"
    " compared point by point where there is no tie",
]
G = dreimac.GeometryUtils
EPS = 1e-7


def verify(ctx, full, perm, lam, D, M, what):
    """A farthest-point sampling of the space with the given full distance matrix; True if it had no ties."""
    N = len(full)
    perm, lam, D = np.asarray(perm), np.asarray(lam, float), np.asarray(D, float)
    ctx.check(perm.shape == (M,) and lam.shape == (M,) and D.shape == (M, N), "%s: shapes %s %s %s", what, perm.shape,
              lam.shape, D.shape)
    ctx.check(perm[0] == 0, "%s: starts at %d", what, perm[0])
    ctx.check(bool(((perm >= 0) & (perm < N)).all()), "%s: indices %s", what, perm.tolist())
    ds, ties = full[0].copy(), False
    for i in range(1, M):
        best = ds.max()
        ctx.check(ds[perm[i]] >= best - EPS, "%s: landmark %d is %d at distance %g, the farthest is at %g", what, i,
                  perm[i], ds[perm[i]], best)
        ctx.check(abs(lam[i] - best) < EPS, "%s: insertion radius %d is %g, the maximal distance is %g", what, i, lam[i], best)
        if i > 1:
            ctx.check(lam[i] <= lam[i - 1] + EPS, "%s: insertion radii increase: %s", what, lam.tolist())
        ties = ties or (ds >= best - EPS).sum() > 1
        ds = np.minimum(ds, full[perm[i]])
    err = np.abs(D - full[perm]).max(initial=0)
    ctx.check(err < EPS, "%s: distances reported are off by %g", what, err)
    return not ties


def both(ctx, X, full, fn, convert=None):
    N = len(X)
    X0, full0 = X.copy(), full.copy()
    Y = X if convert is None else convert(X)
    prev = None
    for M in range(1, N + 1):
        kw = {} if fn is None else dict(csm_fn=fn)
        pc = ctx.call(G.get_greedy_perm_pc, Y, M, **kw)
        clear = verify(ctx, full0, pc["perm"], pc["lambdas"], pc["D"], M, "point cloud")
        ctx.check(np.array_equal(pc["Y"], Y[pc["perm"]]), "the landmarks are not the chosen points")
        dm = ctx.call(G.get_greedy_perm_dm, full, M)
        clear &= verify(ctx, full0, dm["perm"], dm["lambdas"], dm["DLandmarks"], M, "distance matrix")
        if clear:
            ctx.check(np.array_equal(pc["perm"], dm["perm"]), "cloud %s and matrix %s disagree", pc["perm"], dm["perm"])
            ctx.note("without_ties")
        if prev is not None:
            for a, b, w in ((prev[0], pc, "point cloud"), (prev[1], dm, "distance matrix")):
                ctx.check(np.array_equal(a["perm"], b["perm"][:-1]) and np.array_equal(a["lambdas"], b["lambdas"][:-1]),
                          "%s: %d landmarks are not a prefix of %d", w, M - 1, M)
        prev = (pc, dm)
    ctx.check(np.array_equal(X, X0) and np.array_equal(full, full0), "the input was modified")
    ctx.state(X)
    ctx.outcome(prev[0]["perm"], np.round(prev[0]["lambdas"], 6))


CONVERT = [None, lambda X: X.astype(int), lambda X: X.astype(np.float32), np.asfortranarray]


def clouds(points, n):
    P = np.asarray(points, float)

    def driver(ctx):
        X = P[[ctx.choose("p%d" % i, list(range(len(P)))) for i in range(n)]]
        c = ctx.choose("as", CONVERT, True)
        if c is not None and not np.array_equal(c(X), X):
            ctx.prune()
        both(ctx, X, ref.pdist(X), None, c)

    return driver


def sphere_points(coords, d):
    out = [np.array(v, float) for v in itertools.product(coords, repeat=d) if any(v)]
    return np.unique([np.round(v / np.linalg.norm(v), 12) for v in out], axis=0)


def projective(n, d):
    P = sphere_points([-1, 0, 1], d) if d == 3 else sphere_points([-2, -1, 0, 1, 2], 2)

    def driver(ctx):
        X = P[[ctx.choose("p%d" % i, list(range(len(P)))) for i in range(n)]]
        full = np.arccos(np.clip(np.abs((X[:, None] * X[None]).sum(-1)), 0, 1))
        both_tol(ctx, X, full)

    return driver


def both_tol(ctx, X, full):
    """arccos is not accurate near 1: points at projective distance below 1e-5 are the same."""
    full = np.where(full < 1e-5, 0.0, full)

    def fn(A, B):
        D = G.get_csm_projarc(A, B)
        return np.where(D < 1e-5, 0.0, D)

    got = ctx.call(G.get_csm_projarc, X, X)
    ctx.check(got.shape == full.shape and np.abs(got - full).max() < 1e-5, "projective arc lengths %s, expected %s",
              got.tolist(), full.tolist())
    both(ctx, X, full, fn)


def matrices(n, values):
    """Every symmetric matrix with zero diagonal (also those violating the triangle inequality)."""

    def driver(ctx):
        D = np.zeros((n, n))
        for a, b in itertools.combinations(range(n), 2):
            D[a, b] = D[b, a] = ctx.choose("d%d%d" % (a, b), values)
        if ctx.choose("integers", [False, True], True):
            D = D.astype(int)
        D0, prev = D.copy(), None
        for M in range(1, n + 1):
            r = ctx.call(G.get_greedy_perm_dm, D, M)
            verify(ctx, D0.astype(float), r["perm"], r["lambdas"], r["DLandmarks"], M, "distance matrix")
            if prev is not None:
                ctx.check(np.array_equal(prev["perm"], r["perm"][:-1]), "%d landmarks are not a prefix of %d", M - 1, M)
            prev = r
        ctx.check(np.array_equal(D, D0), "the input was modified")
        ctx.state(D)
        ctx.outcome(prev["perm"], prev["lambdas"])

    return driver


def cross(d, coords, m, n):
    P = np.array(list(itertools.product(coords, repeat=d)), float)

    def driver(ctx):
        X = P[[ctx.choose("x%d" % i, list(range(len(P)))) for i in range(m)]]
        Y = P[[ctx.choose("y%d" % i, list(range(len(P)))) for i in range(n)]]
        shift = ctx.choose("shift", [0.0, 64.0], True)
        scale = ctx.choose("scale", [1.0, 1e-3, 1e3], True)
        X, Y = X * scale + shift, Y * scale + shift
        X0, Y0 = X.copy(), Y.copy()
        want = ref.pdist(X, Y)
        got = ctx.call(G.get_csm, X, Y)
        tol = 1e-7 * max(1e-6, np.abs(X).max(initial=0), np.abs(Y).max(initial=0)) * 2
        ctx.check(got.shape == want.shape and np.abs(got - want).max() < tol, "distances %s, expected %s", got.tolist(),
                  want.tolist())
        ssm = ctx.call(G.get_ssm, X)
        ctx.check(ssm.shape == (m, m) and np.abs(ssm - ref.pdist(X)).max() < tol, "self distances %s", ssm.tolist())
        ctx.check(np.array_equal(X, X0) and np.array_equal(Y, Y0), "the input was modified")
        A = X[X.any(1)]
        B = Y[Y.any(1)]
        if len(A) and len(B):
            A, B = (Z / np.linalg.norm(Z, axis=1)[:, None] for Z in (A, B))
            got = ctx.call(G.get_csm_projarc, A, B)
            want = np.arccos(np.clip(np.abs(A @ B.T), 0, 1))
            ctx.check(got.shape == want.shape and np.abs(got - want).max() < 1e-6, "projective arcs %s, expected %s",
                      got.tolist(), want.tolist())
        ctx.state(X, Y)
        ctx.outcome(np.round(want, 6))

    return driver


def spread(n, d):
    """A fixed cloud without regularities: multiples of irrational numbers modulo one."""
    return np.mod(np.arange(n)[:, None] * np.sqrt([2.0, 3.0, 5.0, 7.0, 11.0][:d])[None, :] + 0.25, 1) * 4


def many(sizes):
    """Many points and landmarks; the distances the verification needs are computed row by row."""

    def driver(ctx):
        n, ms = ctx.choose("n", sizes)
        d = ctx.choose("dimension", [2, 5, 1])
        m = min(n, ctx.choose("n_landmarks", ms))
        shape = ctx.choose("shape", ["spread", "repeated", "grid"])
        X = spread(n, d)
        if shape == "repeated":
            X[n // 2 :] = X[: n - n // 2]
        elif shape == "grid":
            X = np.round(X * 4) / 4
        X = X[[(i * 7) % n for i in range(n)]] if n % 7 else X
        X0 = X.copy()
        which = ctx.choose("from", ["cloud", "matrix"] if n <= 3000 else ["cloud"])
        if which == "cloud":
            r = ctx.call(G.get_greedy_perm_pc, X, m)
            dist = r["D"]
            ctx.check(np.array_equal(r["Y"], X0[r["perm"]]), "the landmarks are not the chosen points")
        else:
            D = ref.pdist(X)
            D0 = D.copy()
            r = ctx.call(G.get_greedy_perm_dm, D, m)
            dist = r["DLandmarks"]
            ctx.check(np.array_equal(D, D0), "the input was modified")
        ctx.check(np.array_equal(X, X0), "the input was modified")
        perm, lam = np.asarray(r["perm"]), np.asarray(r["lambdas"])
        ctx.check(perm.shape == (m,) and lam.shape == (m,) and dist.shape == (m, n), "shapes %s %s %s", perm.shape, lam.shape, dist.shape)
        ctx.check(perm[0] == 0 and bool(((perm >= 0) & (perm < n)).all()), "starts at %d", perm[0])
        ds = None
        for i in range(m):
            if i:
                best = ds.max()
                eps = 1e-9 if best > 1e-2 else 1e-6  # the square root loses half of the digits near zero
                ctx.check(abs(lam[i] - best) < eps and ds[perm[i]] > best - eps, "landmark %d is %d at distance %g, reported %g, the farthest "
                          "is at %g", i, perm[i], ds[perm[i]], lam[i], best)
            row = np.sqrt(((X0[perm[i]] - X0) ** 2).sum(1))
            ctx.check(np.abs(dist[i] - row).max() < 1e-6, "distances from landmark %d are off by %g", i, np.abs(dist[i] - row).max())
            ds = row if ds is None else np.minimum(ds, row)
        ctx.state(n, d, m, shape, which)
        ctx.outcome(perm[:20], np.round(lam[1:20], 5))

    return driver


def cross_many(ms, ns):
    """Cross distances between many points."""

    def driver(ctx):
        m, n = ctx.choose("m", ms), ctx.choose("n", ns)
        d = ctx.choose("dimension", [1, 2, 5])
        Z = np.hstack([spread(m + n, d)] * ctx.choose("copies of the axes", [1, 8])) + ctx.choose("shift", [0.0, -3.0])
        X, Y = Z[:m].copy(), Z[m:].copy()
        what = ctx.choose("function", ["get_csm", "get_csm_projarc", "get_ssm"])
        if what == "get_csm_projarc":
            X, Y = (A / np.linalg.norm(A, axis=1)[:, None] for A in (X, Y))
        X0, Y0 = X.copy(), Y.copy()
        got = ctx.call(getattr(G, what), X, *([] if what == "get_ssm" else [Y]))
        ctx.check(np.array_equal(X, X0) and np.array_equal(Y, Y0), "the input was modified")
        if what == "get_ssm":
            Y, n = X, m
        ctx.check(got.shape == (m, n), "shape %s for %d and %d points", got.shape, m, n)
        worst, at = 0.0, 0
        for i in range(m):
            if what == "get_csm_projarc":
                # from the chord, which is accurate for close points
                c = np.minimum(((X0[i] - Y0) ** 2).sum(1), ((X0[i] + Y0) ** 2).sum(1))
                row = 2 * np.arcsin(np.sqrt(np.minimum(c, 2)) / 2)
            else:
                row = np.sqrt(((X0[i] - (X0 if what == "get_ssm" else Y0)) ** 2).sum(1))
            e = np.abs(got[i] - row).max(initial=0)
            if not e <= worst:
                worst, at = e, i
        ctx.check(worst < 1e-5, "distances from point %d of %d to %d points are off by %g", at, m, n, worst)
        ctx.state(m, n, Z.shape, what)
        ctx.outcome(np.round(got[:3, :3], 4))

    return driver


def scaled(points, n):
    """Clouds of any size near the origin: distances are accurate relative to the size."""
    P = np.asarray(points, float)

    def driver(ctx):
        X = P[[ctx.choose("p%d" % i, list(range(len(P)))) for i in range(n)]]
        s = 2.0 ** ctx.choose("scale", [-20, -30, -60, 30])
        full = ref.pdist(X)
        got = ctx.call(G.get_csm, s * X, s * X[::-1]) / s
        ctx.check(np.abs(got - full[:, ::-1]).max() < 1e-5, "distances of a cloud of size %g are off by a fraction of %g", s,
                  np.abs(got - full[:, ::-1]).max())
        M = ctx.choose("n_landmarks", [1, n - 1, n])
        pc = ctx.call(G.get_greedy_perm_pc, s * X, M)
        verify(ctx, full, pc["perm"], pc["lambdas"] / s, pc["D"] / s, M, "point cloud")
        dm = ctx.call(G.get_greedy_perm_dm, s * full, M)
        verify(ctx, full, dm["perm"], dm["lambdas"] / s, dm["DLandmarks"] / s, M, "distance matrix")
        ctx.state(X, s, M)
        ctx.outcome(pc["perm"], s)

    return driver


def scenarios(tier):
    q = tier == "quick"
    grid = list(itertools.product(range(3), repeat=2))
    return [
        Scenario("plane", clouds(grid, 4 if q else 5), bound=1, want=128),
        Scenario("line", clouds([[0], [1], [2], [4], [7]], 5 if q else 6), bound=0, want=128),
        Scenario("space", clouds(list(itertools.product((0, 1), (0, 1), (0, 2))), 4 if q else 5), bound=0, want=64),
        Scenario("few_points", clouds(grid, 2), bound=1),
        Scenario("projective_line", projective(3 if q else 4, 2), want=64),
        Scenario("projective_plane", projective(2 if q else 3, 3), want=64),
        Scenario("matrices", matrices(4, [0.0, 1.0, 2.5, 3.0] if q else [0.0, 1.0, 1.5, 2.5, 3.0]), bound=1, want=64),
        Scenario("matrices5", matrices(5, [1.0, 2.0]), bound=1, want=64),
        Scenario("cross", cross(2, [-1, 0, 2], 2, 2 if q else 3), bound=1, want=128),
        Scenario("many", many([(40, [40]), (300, [5, 300]), (1500, [3, 100]), (70000, [3, 20])] if q else
                              [(40, [1, 2, 39, 40]), (300, [5, 128, 300]), (1500, [3, 300, 1500]), (3000, [260]), (33000, [40]), (70000, [3, 300]),
                               (200000, [12])]), want=64),
        Scenario("cross_many", cross_many([1, 40, 601, 1100], [1, 33, 700, 2600]) if q else
                 cross_many([1, 40, 129, 257, 601, 1100, 2100], [1, 33, 129, 300, 700, 2600, 5000]), want=64),
        Scenario("scaled", scaled([(0, 0), (1, 0), (0, 2), (3, 1), (2, 2)], 3 if q else 4), want=64),
        Scenario("cross3", cross(3, [0, 1], 2, 2), bound=2, want=64),
    ]
