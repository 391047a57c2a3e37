import itertools

import numpy as np

from mc.env import dreimac, raw_ripser
from mc import circle, families as F, proj, ref
from mc.common import knife_edge, select
from mc.engine import Failed, Scenario

ASSUMPTIONS = [
    "the radius is observed through the argument handed to the user's partition function",
    "the Rips complex is observed through the coordinates, compared with the reference at that threshold",
]
CLASSES = ["CircularCoords", "ToroidalCoords", "ProjectiveCoords", "LensCoords", "ComplexProjectiveCoords"]
PERCS = [0.5, 0.0, 0.1, 0.25, 0.75, 0.9, 1.0]


def hd_of(kind):
    return 2 if kind == "ComplexProjectiveCoords" else 1


def rule(perc, b, e, sr):
    start = 2 * b if sr else b
    if start > e:
        return None
    return (1 - perc) * start + perc * e


def direct(ctx):
    """The rule itself on a grid of end points."""
    kind = ctx.choose("class", CLASSES)
    D = F.circle_metric([1.0] * 5) if hd_of(kind) == 1 else F.cross_polytope(3)
    obj = ctx.call(getattr(dreimac, kind), D, len(D), distance_matrix=True)
    grid = [0.0, 0.25, 0.5, 1.0, 1.5, 2.0, 3.0, 4.0, float(np.float32(0.7))]
    b = ctx.choose("birth", grid)
    e = ctx.choose("death", [x for x in grid if x > b])
    perc = ctx.choose("perc", PERCS)
    sr = ctx.choose("standard_range", [True, False])
    got, _ = ctx.attempt(obj.get_cover_radius, perc, b, e, sr)
    verdict(ctx, got, rule(perc, float(b), float(e), sr), lambda g: (g[0], g[1]))
    ctx.state(kind, b, e, perc, sr)
    ctx.outcome(str(got))


def verdict(ctx, got, thr, radius_and_threshold):
    if thr is None:
        ctx.check(isinstance(got, Failed), "no error although the class is too short: %s", got)
        ctx.check("standard_range" in str(got.exc), "the error does not mention standard_range: %s", got)
        return False
    ctx.check(not isinstance(got, Failed), "%s", got)
    r, t = radius_and_threshold(got)
    for x, y, what in ((r, thr / 2, "radius"), (t, thr, "threshold")):
        if x is not None:
            ctx.check(abs(x - y) <= 1e-9 * max(1, abs(y)), "%s %r, expected %r", what, x, y)
    return True


def query(ctx, kind, X, n_land, exact, prime_opts=(None,)):
    """One query of class k: radius, error, and coordinates at the threshold."""
    hd = hd_of(kind)
    default = {"ProjectiveCoords": 2, "LensCoords": 3}.get(kind, 41)
    p = default
    pers = ref.Persistence(X, n_land, True, p, hd, raw_ripser)
    k = ctx.choose("class_index", list(range(min(3, len(pers.classes[hd])))))
    perc = ctx.choose("perc", PERCS)
    sr = ctx.choose("standard_range", [True, False])
    obj = ctx.call(getattr(dreimac, kind), X, n_land, distance_matrix=True)
    b, e, cds = select(pers, obj, hd, k)
    thr = rule(perc, b, e, sr)
    seen = []

    def linear(ds, r):
        seen.append(float(r))
        return r - ds

    kw = dict(perc=perc, partunity_fn=linear, standard_range=sr)
    if kind == "ToroidalCoords":
        kw["cocycle_idxs"] = [k]
    else:
        kw["cocycle_idx"] = k
    if kind == "LensCoords":
        kw["complex_dim"] = n_land
    elif kind in proj.GROUP:
        kw["proj_dim"] = n_land - 1
    got, _ = ctx.attempt(obj.get_coordinates, **kw)
    ctx.state(pers.D, kind, perc, sr, k)
    if not verdict(ctx, got, thr, lambda g: (seen[-1] if seen else None, None)):
        ctx.outcome("too short")
        return
    ctx.check(len(seen) > 0, "the partition function was not used")
    ctx.check(max(abs(x - seen[0]) for x in seen) == 0, "several radii: %s", seen)
    ctx.outcome(thr)
    # observe the complex through the coordinates
    if knife_edge(pers.D, thr, exact) or knife_edge(pers.dist, thr / 2, exact):
        return
    K = ref.rips(pers.D, thr)
    varphi, cov, U = ref.partition(pers.dist, thr / 2, "linear")
    if hd == 2 or kind in proj.GROUP:
        err, deg = proj.compare(ctx, kind, K, cds, p, varphi, cov, U, True, n_land - 1, "exponential",
                                np.asarray(got)[cov])
        if deg:
            return
        tol = 2e-4
    else:
        th = np.asarray(got[0] if kind == "ToroidalCoords" else got)
        err, tol = circle.fit(th, K, cds, p, True, varphi, cov, U), ref.TOL
        if err is None:
            return
    ctx.check(err <= tol, "coordinates are not those of the complex at threshold %g (error %.3g)", thr, err)
    ctx.note("coordinates_compared")


def degree_one(values, n, kinds):
    def driver(ctx):
        D = F.metric(ctx, n, values)
        kind = ctx.choose("class", kinds)
        C = np.hstack([F.clique_columns(D, t, [0.8125, 0.9375], limit=12)
                       for t in (min(values) + .5, np.mean(values), max(values) - .5)])
        query(ctx, kind, np.hstack([D, C]), n, True)

    return driver


def circles(n, gaps):
    def driver(ctx):
        D = F.circle_metric([ctx.choose("gap%d" % i, gaps) for i in range(n)])
        kind = ctx.choose("class", CLASSES[:4])
        n_land = ctx.choose("n_landmarks", [n, n - 1])
        query(ctx, kind, D, n_land, True)

    return driver


def degree_two(n_free):
    def driver(ctx):
        D = 8.0 * (1 - np.eye(6))
        anti = [(0, 1), (2, 3), (4, 5)]
        pairs = [q for q in itertools.combinations(range(6), 2) if q not in anti]
        for i, (a, b) in enumerate(pairs):
            x = ctx.choose("d%d%d" % (a, b), [4.0, 5.0]) if i < n_free else 4.0
            D[a, b] = D[b, a] = x
        for a, b in anti:
            x = ctx.choose("d%d%d" % (a, b), [8.0, 7.0])
            D[a, b] = D[b, a] = x
        C = np.hstack([F.clique_columns(D, t, [0.8125, 0.9375], limit=10) for t in (4.5, 7.0)])
        query(ctx, "ComplexProjectiveCoords", np.hstack([D, C]), 6, True)

    return driver


def several(ctx):
    """Toroidal coordinates of several classes use the latest birth and the earliest death."""
    shapes = ctx.choose("circles", [((4, 1.0), (4, 1.0)), ((4, 1.0), (6, 0.75)), ((4, 1.0), (4, 2.0)),
                                    ((8, 1.0), (4, 1.5)), ((8, 0.5), (8, 0.75)), ((4, 1.0), (4, 4.0)),
                                    ((9, 1.0), (9, 0.75), (9, 0.875))])
    far = 32.0
    D = None
    for m, w in shapes:
        C = F.circle_metric([w] * m)
        D = C if D is None else F.disjoint(D, C, far)
    n = len(D)
    ks = ctx.choose("classes", [list(q) for r in range(1, len(shapes) + 1)
                                for q in itertools.permutations(range(len(shapes)), r)])
    perc = ctx.choose("perc", PERCS)
    sr = ctx.choose("standard_range", [True, False])
    pers = ref.Persistence(D, n, True, 41, 1, raw_ripser)
    obj = ctx.call(dreimac.ToroidalCoords, D, n, distance_matrix=True)
    ends = [select(pers, obj, 1, k)[:2] for k in ks]
    b, e = max(x for x, _ in ends), min(y for _, y in ends)
    seen = []

    def linear(ds, r):
        seen.append(float(r))
        return r - ds

    got, _ = ctx.attempt(obj.get_coordinates, perc=perc, cocycle_idxs=ks, partunity_fn=linear, standard_range=sr)
    ctx.state(shapes, ks, perc, sr)
    t = rule(perc, b, e, sr)
    if t is not None and t <= b < e:
        ctx.prune()  # perc = 0: no class is alive on edges shorter than its birth, nothing to reduce
    if b >= e:
        ctx.check(isinstance(got, Failed), "no error although the lifetimes are disjoint")
        ctx.outcome("disjoint")
        return
    verdict(ctx, got, rule(perc, b, e, sr), lambda g: (seen[-1] if seen else None, None))
    ctx.outcome(str(seen[-1:]))


def scenarios(tier):
    q = tier == "quick"
    return [
        Scenario("direct", direct),
        Scenario("degree_one4", degree_one([2.0, 3.0, 4.0, 5.0], 4, CLASSES[:4]), want=128),
        Scenario("degree_one5", degree_one([2.0, 3.0] if q else [2.0, 3.0, 4.0], 5, ["CircularCoords", "LensCoords"] if q else CLASSES[:4]), want=256),
        Scenario("circles", circles(7 if q else 9, [2.0, 3.0]), want=128),
        Scenario("degree_two", degree_two(3 if q else 8), want=128),
        Scenario("several", several),
        Scenario("compiled", circles(6, [2.0, 3.0]) if not q else several, "jit", want=30),
    ]
