import itertools

import numpy as np

from mc.env import dreimac, raw_ripser
from mc import families as F
from mc.copies import LARGE, SIZES, copies
from mc.engine import Scenario
from mc.proj import projective_run

ASSUMPTIONS = [
    "ripser, lsqr, milp and eigh are trusted as specified (C03 varies their answers)",
    "landmarks and data points satisfy the triangle inequality",
    "coordinates are compared where every spectral gap of the reduction exceeds 1e-4 and no projection vanishes",
]
PRIMES = [41, 2, 3, 5]
PERCS = [0.5, 0.25, 0.75, 0.0, 1.0]
BUMPS = ["linear", "quadratic", "exp"]
MODES = ["exponential", "direct", "one-by-one"]
KIND = "ComplexProjectiveCoords"


def opts(ctx, n, sr0, kmax=1, dims=(0, 1, 2)):
    prime = ctx.choose("prime", PRIMES, True)
    perc = ctx.choose("perc", PERCS, True)
    bump = ctx.choose("bump", BUMPS, True)
    sr = ctx.choose("standard_range", [sr0, not sr0], True)
    check = ctx.choose("check", [True, False], True)
    dim, mode = ctx.choose("reduction", [(n - 1, "exponential")] + [(d, m) for d in dims for m in MODES]
                           + [(n, "direct"), (n, "one-by-one"), (n - 1, "one-by-one"), (n - 2, "exponential")], True)
    k = ctx.choose("class", list(range(kmax)))
    return prime, perc, bump, sr, check, dim, mode, k


def run(ctx, X, dm, n_land, o, exact=True, maxdim=None, tol=2e-4):
    prime, perc, bump, sr, check, dim, mode, k = o
    projective_run(ctx, dreimac, raw_ripser, KIND, X, dm, n_land, prime, k, perc, bump, sr, dim, mode, exact,
                   maxdim=maxdim, check=check, tol=tol)


def matchings(n):
    """Perfect matchings of range(n)."""
    if n == 0:
        return [[]]
    out = []

    def rec(left, acc):
        if not left:
            out.append(acc)
            return
        a = left[0]
        for b in left[1:]:
            rec([x for x in left if x not in (a, b)], acc + [(a, b)])

    rec(list(range(n)), [])
    return out


def octahedra(extra, levels, limit):
    """Every labelled octahedron, joined in every way to `extra` further vertices."""

    def driver(ctx):
        n = 6 + extra
        D = np.ones((n, n))
        np.fill_diagonal(D, 0)
        slots = ctx.choose("new_vertices_at", sorted(itertools.combinations(range(n), extra)))
        old = [i for i in range(n) if i not in slots]
        for a, b in ctx.choose("antipodes", matchings(6)):
            D[old[a], old[b]] = D[old[b], old[a]] = 2.0
        for t, s in enumerate(slots):
            for v in old + list(slots[:t]):
                x = ctx.choose("d%d-%d" % (v, s), [1.0, 2.0])
                D[v, s] = D[s, v] = x
        o = opts(ctx, n, False, 2 if extra else 1)
        thr = (1 - o[1]) * (2.0 if o[3] else 1.0) + o[1] * 2.0
        C = F.clique_columns(D, thr, levels)
        stride = max(1, C.shape[1] // limit)
        run(ctx, np.hstack([D, C[:, ::stride]]), True, n, o)

    return driver


def weighted(values, n_free):
    """Octahedra with unequal edges: births and deaths of the degree-two class vary."""

    def driver(ctx):
        D = 8.0 * (1 - np.eye(6))
        anti = ctx.choose("antipodes", [[(0, 1), (2, 3), (4, 5)], [(0, 3), (1, 4), (2, 5)]])
        pairs = [p for p in itertools.combinations(range(6), 2) if p not in anti]
        for i, (a, b) in enumerate(pairs):
            x = ctx.choose("d%d%d" % (a, b), values) if i < n_free else values[0]
            D[a, b] = D[b, a] = x
        for a, b in anti:
            x = ctx.choose("d%d%d" % (a, b), [values[0] * 2, values[0] * 2 - 1])
            D[a, b] = D[b, a] = x
        if not F.is_metric(D):
            ctx.prune()
        o = opts(ctx, 6, False)
        C = np.hstack([F.clique_columns(D, t, [0.8125, 0.9375]) for t in (values[-1] + .5, values[0] * 2 - 1)])
        stride = max(1, C.shape[1] // 20)
        run(ctx, np.hstack([D, C[:, ::stride]]), True, 6, o)

    return driver


def sphere_grid(k):
    """The octahedral sphere with every edge subdivided once (18 + points), graph distances."""
    pts = [p for p in itertools.product(range(-k, k + 1), repeat=3) if sum(map(abs, p)) == k]
    P = np.array(pts)
    n = len(P)
    E = [(a, b, 1.0) for a in range(n) for b in range(a) if np.abs(P[a] - P[b]).max() == 1]
    return F.shortest(n, E)


def suspension(m):
    """Suspension of an m-cycle."""
    n = m + 2
    D = 2.0 * np.ones((n, n))
    np.fill_diagonal(D, 0)
    for i in range(m):
        D[i, (i + 1) % m] = D[(i + 1) % m, i] = 1
        D[i, m:] = D[m:, i] = 1
    return D


SHAPES = {
    "sphere18": lambda: sphere_grid(2),
    "suspended5": lambda: suspension(5),
    "suspended6": lambda: suspension(6),
    "sphere38": lambda: sphere_grid(3),
    "sphere66": lambda: sphere_grid(4),
    "two_spheres": lambda: F.disjoint(F.cross_polytope(3), F.cross_polytope(3), 8.0),
    "sphere_and_circle": lambda: F.disjoint(F.cross_polytope(3), F.circle_metric([1.0] * 5), 8.0),
    "sphere_far_point": lambda: F.disjoint(F.cross_polytope(3), np.zeros((1, 1)), 8.0),
}


SMALL = sorted(set(SHAPES) - {"sphere38", "sphere66"})


def shapes(names, n_orders):
    def driver(ctx):
        name = ctx.choose("shape", names)
        D = SHAPES[name]()
        n = len(D)
        from mc.props.c01 import orders

        os_ = orders(n)
        D = F.permuted(D, ctx.choose("order", os_[:: max(1, len(os_) // n_orders)]))
        C = F.clique_columns(D, 1.5, [0.6875, 0.875]) if n < 15 else F.clique_columns(D, 1.5, [0.75])
        X = np.hstack([D, C if name in ("sphere38", "sphere66") else C[:, :: max(1, C.shape[1] // 24)]])
        n_land = ctx.choose("n_landmarks", [n, n - 1, n - 2], True)
        o = opts(ctx, n_land, False, 2)
        # lsqr stops at a relative accuracy of 1e-6, which shows in larger complexes
        run(ctx, X, True, n_land, o, tol=2e-4 if len(D) < 38 else 1e-2)

    return driver


def finer(ks, n_orders):
    """Finer subdivisions of the octahedral sphere, at thresholds with few simplices."""

    def driver(ctx):
        from mc.props.c01 import orders

        k = ctx.choose("subdivision", ks)
        D = sphere_grid(k)
        n = len(D)
        os_ = orders(n)
        D = F.permuted(D, ctx.choose("order", os_[:: max(1, len(os_) // n_orders)]))
        C = F.clique_columns(D, 1.5, [0.75])
        X = np.hstack([D, C])
        o = (ctx.choose("prime", [41, 3]), ctx.choose("perc", [0.1, 0.15]), "linear", False, True, n - 1, "exponential", 0)
        run(ctx, X, True, n, o, tol=1e-2)

    return driver


def clouds(ctx):
    """Octahedron with points on its edges and faces and outside, as point clouds with fewer landmarks."""
    base = np.array([p for p in itertools.product((-1, 0, 1), repeat=3) if sum(map(abs, p)) == 1], float)
    more = np.array([[0.5, 0.5, 0], [0, 0.5, 0.5], [-0.5, 0, 0.5], [0.3125, 0.3125, -0.375], [1, 1, 0], [0, -2, 1]], float)
    X = [base]
    for i, q in enumerate(more):
        if ctx.choose("q%d" % i, [0, 1]):
            X.append(q[None])
    X = np.vstack(X)
    X = X[ctx.choose("order", [slice(None), slice(None, None, -1)])]
    n_land = ctx.choose("n_landmarks", [len(X), len(X) - 1, 6])
    o = opts(ctx, n_land, False)
    run(ctx, X, False, n_land, o, exact=False)


def large(n_data):
    def driver(ctx):
        """Inputs for which the table of one float per landmark and point exceeds a megabyte."""
        from mc.props.c01 import orders

        D = F.permuted(F.cross_polytope(3), ctx.choose("order", orders(6)[:2]))
        C = F.clique_columns(D, 1.5, [0.6875, 0.875])
        reps = -(-ctx.choose("points", n_data) // C.shape[1])
        X = np.hstack([D] + [C] * reps)
        dim, mode = ctx.choose("reduction", [(5, "exponential"), (1, "exponential")])
        pers_check(ctx, X, dim, mode, 6 + C.shape[1])

    return driver


def pers_check(ctx, X, dim, mode, period):
    """The answer for many copies of the points: same classifying map for every copy."""
    obj = ctx.call(dreimac.ComplexProjectiveCoords, X, 6, distance_matrix=True)
    kw = dict(perc=0.5, proj_dim=dim, standard_range=False, projective_dim_red_mode=mode)
    got = ctx.call(obj.get_coordinates, **kw)
    head = X[:, :period]
    rest = (X.shape[1] - 6) // (period - 6)
    got = np.asarray(got)
    if dim == 5:
        # no reduction: compare with the reference on the distinct points
        from mc import ref
        from mc.common import select
        from mc.proj import class_maps
        from mc.gauge import gauge_error

        pers = ref.Persistence(head, 6, True, 41, 2, raw_ripser)
        b, e, cds = select(pers, obj, 2, 0)
        K = ref.rips(pers.D, (b + e) / 2)
        varphi, cov, U = ref.partition(pers.dist, (b + e) / 4, "linear")
        M = next(class_maps(KIND, K, cds, 41, varphi, cov, U))
        err = gauge_error(M, got[:period], "phase")
        ctx.check(err < 2e-4, "deviates by %.3g from the classifying map on %d points", err, X.shape[1])
    for j in (0, rest // 2, rest - 1):
        s = 6 + j * (period - 6)
        A = got[s:s + period - 6]
        d = np.abs(np.sum(np.conjugate(A) * got[6:period], axis=1))
        ctx.check(bool((np.abs(d - 1) < 1e-5).all()), "equal points have different coordinates")
    ctx.state(X.shape, dim, mode)
    ctx.outcome(np.round(np.abs(got[:period]), 4))


def scenarios(tier):
    from mc.props import c03

    q = tier == "quick"
    return [
        Scenario("representatives", c03.degree_two([127, 41, 3], False, near_half=True), bound=1 if q else 2, want=256),
        Scenario("octahedra6", octahedra(0, [0.6875, 0.75, 0.9375], 30), bound=2 if q else 4),
        Scenario("octahedra7", octahedra(1, [0.6875, 0.875], 20), bound=0 if q else 1, want=256),
        Scenario("weighted", weighted([4.0, 5.0], 5 if q else 8), bound=1 if q else 2, want=128),
        Scenario("shapes", shapes(SMALL, 3 if q else 12), bound=1 if q else 2, want=256),
        Scenario("larger_spheres", shapes(["sphere38", "sphere66"] if q else ["sphere38", "sphere66", "sphere18"], 1 if q else 4),
                 "jit", bound=1 if q else 2, want=32),
        Scenario("finer_spheres", finer([5, 6], 1 if q else 4), "jit", want=8),
        Scenario("clouds", clouds, bound=1 if q else 2, want=128),
        Scenario("copies", copies(dreimac, ["ComplexProjectiveCoords"], SIZES if q else LARGE), want=64),
        Scenario("compiled", shapes(["suspended5", "two_spheres"] if q else SMALL, 2 if q else 6), "jit",
                 bound=1 if q else 2, want=128),
        Scenario("compiled_large", large([3000, 22000, 30000] if q else [3000, 21800, 22000, 30000, 90000]), "jit",
                 want=32),
    ]
