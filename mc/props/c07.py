import itertools
import re

import numpy as np

from mc.env import dreimac, raw_ripser
from mc import families as F, ref
from mc.common import bumps, scale, select
from mc.engine import Failed, Scenario
from mc.gauge import Degenerate, gauge_error, reduce
from mc.proj import class_maps, n_columns

ASSUMPTIONS = [
    "bump functions are positive inside the ball in floating point (the exponential one underflows within 1e-3 of the boundary)",
    "the coordinates of covered points with and without uncovered points are compared up to the symmetries of the target",
]
CLASSES = ["CircularCoords", "ToroidalCoords", "ProjectiveCoords", "LensCoords", "ComplexProjectiveCoords"]
DTYPES = {
    "float64": lambda A: A.astype(np.float64),
    "float32": lambda A: A.astype(np.float32),
    "int64": lambda A: np.rint(A * 4).astype(np.int64),
    "int32": lambda A: np.rint(A * 4).astype(np.int32),
    "fortran": lambda A: np.asfortranarray(A),
    "readonly": lambda A: _ro(A),
    "strided": lambda A: np.repeat(A, 2, axis=1)[:, ::2],
}


def _ro(A):
    A = A.copy()
    A.setflags(write=False)
    return A


def cone(ds, r):
    return 1.0 + 0.0 * ds


def parabola(ds, r):
    return r * r - ds * ds


def bump_functions():
    b = dict(bumps(dreimac))
    b["custom_parabola"] = parabola
    b["custom_constant"] = cone
    return b


def reference_bump(name, d, r):
    if name == "custom_parabola":
        return r * r - d * d
    if name == "custom_constant":
        return np.ones_like(d)
    return ref.bump(name, d, r)


def patterns(L, levels, hairline=None):
    """`hairline`: the levels are multiples of the radius, down to one rounding step from it."""

    def driver(ctx):
        """All columns of distances to L landmarks at once; all radii, bump functions, number types."""
        base = ctx.choose("landmark_distance", [1.0, 2.0])
        D = base * (1 - np.eye(L))
        radius = ctx.choose("radius", hairline or [0.25, 0.5, 0.75, 1.0, 1.5, 0.3, 1.9, 6.0])
        cols = np.array(list(itertools.product(levels, repeat=L))).T
        if hairline:
            cols = cols * radius
        first = ctx.choose("columns", ["all", "reversed", "thirds"])
        cols = {"all": cols, "reversed": cols[:, ::-1], "thirds": cols[:, ::3]}[first]
        A = np.hstack([D, cols])
        dt = ctx.choose("dtype", ["float64", "fortran"] if hairline else sorted(DTYPES))
        X = DTYPES[dt](A)
        name = ctx.choose("class", CLASSES)
        n_land = ctx.choose("n_landmarks", [L] + ([L - 1] if L > 2 else []))
        obj = ctx.call(getattr(dreimac, name), X, n_land, distance_matrix=True)
        dist = np.asarray(X, dtype=float)[ref.maxmin(np.asarray(X[:, :L], float), n_land)]
        unit = 4.0 if dt.startswith("int") else 1.0
        fname = ctx.choose("bump", 
                           ["linear", "quadratic", "exp", "custom_parabola", "custom_constant"][0 : 2 if hairline else 5])
        r = np.float64(unit * radius)
        keep = np.array(X, copy=True)
        res, warns = ctx.attempt(obj.get_covering_partition, r, bump_functions()[fname])
        ctx.check(not isinstance(res, Failed), "get_covering_partition %s", res)
        ctx.check(np.array_equal(keep, X), "the input was modified")
        varphi, ball = np.asarray(res[0], float), np.asarray(res[1])
        U = dist < r
        cov = U.any(0)
        phi = np.zeros(dist.shape)
        phi[U] = reference_bump(fname, dist[U], r)
        s = phi.sum(0)
        if (s[cov] < 1e-200).any():
            ctx.prune()
        ctx.check(varphi.shape == dist.shape, "weights have shape %s", varphi.shape)
        ctx.check(bool(np.isnan(varphi[:, ~cov]).all()), "weights of an uncovered point are defined")
        v = varphi[:, cov]
        ctx.check(bool(np.isfinite(v).all()), "weights of a covered point are undefined")
        ctx.check(bool((v >= 0).all()), "negative weight")
        ctx.check(bool((np.abs(v.sum(0) - 1) < 1e-9).all()), "weights do not sum to one")
        ctx.check(bool((v[~U[:, cov]] == 0).all()), "weight on a landmark at distance at least the radius")
        ctx.check(bool((v[U[:, cov]] > 0).all()), "no weight on a landmark closer than the radius")
        w = phi[:, cov] / s[cov]
        ctx.check(bool((np.abs(v - w) < 1e-6).all()), "weights are not proportional to the bump function: %g",
                  np.abs(v - w).max() if v.size else 0)
        ctx.check(bool(U[ball[cov], np.flatnonzero(cov)].all()), "the ball assigned does not contain the point")
        check_warning(ctx, warns, int((~cov).sum()))
        ctx.state(dist, r, fname, dt, name)
        ctx.outcome(np.nan_to_num(varphi, nan=-1.0))
        ctx.note("columns", dist.shape[1])

    return driver


def check_warning(ctx, warns, n):
    about = [w for w in warns if "cover" in w.lower()]
    if n == 0:
        ctx.check(not about, "warning about uncovered points, but there are none: %s", about)
    else:
        ctx.check(any(str(n) in re.findall(r"\d+", w) for w in about),
                  "no warning stating that %d points are not covered: %s", n, about or warns)


def bases(kind):
    """(landmark metric, covered columns) per coordinate type."""
    if kind == "ComplexProjectiveCoords":
        D = F.cross_polytope(3)
    else:
        D = F.circle_metric([1.0] * 5)
    C = F.clique_columns(D, 2.0, [0.25, 0.625], limit=None)
    return D, C


KW = {
    "CircularCoords": [dict()],
    "ToroidalCoords": [dict()],
    "ProjectiveCoords": [dict(proj_dim=d, projective_dim_red_mode=m) for d in (1, 2, 4)
                         for m in ("exponential", "direct", "one-by-one")],
    "LensCoords": [dict(complex_dim=d, projective_dim_red_mode=m) for d in (2, 3, 5)
                   for m in ("exponential", "direct", "one-by-one")],
    "ComplexProjectiveCoords": [dict(proj_dim=d, projective_dim_red_mode=m) for d in (1, 2, 5)
                                for m in ("exponential", "direct", "one-by-one")],
}
GROUP = {"ProjectiveCoords": 2, "LensCoords": 3, "ComplexProjectiveCoords": "phase"}


def determined(kind, obj, X, L, kw):
    hd = 2 if kind == "ComplexProjectiveCoords" else 1
    p = {"ProjectiveCoords": 2, "LensCoords": 3, "ComplexProjectiveCoords": 41}[kind]
    pers = ref.Persistence(X, L, True, p, hd, raw_ripser)
    b, e, cds = select(pers, obj, hd, 0)
    _, thr = scale(b, e, kw["perc"], False)
    K = ref.rips(pers.D, thr)
    varphi, covered, U = ref.partition(pers.dist, thr / 2, kw["partunity_fn"].__name__)
    try:
        for M in class_maps(kind, K, cds[:1], p, varphi, covered, U, span=0):
            reduce(M, n_columns(kind, kw) - 1, kw["projective_dim_red_mode"])
    except Degenerate:
        return False
    return True


def uncovered(kinds, n_un, stride=1, bump_names=("linear", "quadratic", "exp")):
    """Any set of uncovered points, anywhere among the covered ones."""

    def driver(ctx):
        kind = ctx.choose("class", kinds)
        kw = dict(ctx.choose("options", KW[kind], True))
        kw["partunity_fn"] = bumps(dreimac)[ctx.choose("bump", list(bump_names))]
        kw["standard_range"] = False
        if kind != "ToroidalCoords":
            kw["cocycle_idx"] = 0
        kw["perc"] = 0.5
        D, C = bases(kind)
        L = len(D)
        C = C[:, ctx.choose("sample", [0, 1, 2])::3]
        # candidates for uncovered points: just at the boundary, further, very far
        thr = 1.5
        far = []
        for i, x in enumerate([thr / 2, 1.0, 40.0]):
            far.append(np.minimum.reduce([D[i] + x]))
        cols, mark = [], []
        slots = [0, C.shape[1] // 2, C.shape[1]]
        for pos in range(C.shape[1] + 1):
            if pos in slots:
                s = slots.index(pos)
                for t in range(n_un):
                    if ctx.choose("uncovered%d.%d" % (s, t), [0, 1]):
                        cols.append(far[(s + t) % 3])
                        mark.append(True)
            if pos < C.shape[1]:
                cols.append(C[:, pos])
                mark.append(False)
        cols = np.array(cols).T
        mark = np.array([False] * L + mark)
        X = np.hstack([D, cols])
        cov = (X < thr / 2).any(0)
        keep = cov
        make = getattr(dreimac, kind)
        obj = ctx.call(make, X, L, distance_matrix=True)
        got, warns = ctx.attempt(obj.get_coordinates, **kw)
        ctx.check(not isinstance(got, Failed), "%s", got)
        check_warning(ctx, warns, int((~cov).sum()))
        alone = ctx.call(make, X[:, keep], L, distance_matrix=True)
        want, _ = ctx.attempt(alone.get_coordinates, **kw)
        ctx.check(not isinstance(want, Failed), "%s", want)
        if kind in GROUP and not determined(kind, obj, X, L, kw):
            ctx.prune()  # the projection vanishes at some point or is not unique
        got = np.asarray(got[0] if kind == "ToroidalCoords" else got)
        want = np.asarray(want[0] if kind == "ToroidalCoords" else want)
        ctx.check(len(got) == X.shape[1], "%d results for %d points", len(got), X.shape[1])
        ctx.check(bool(np.isnan(got[~cov]).all()), "an uncovered point has defined coordinates: %s", got[~cov])
        ctx.check(bool(np.isfinite(got[cov]).all()), "a covered point has undefined coordinates")
        ctx.check(bool(np.isfinite(want).all()), "undefined coordinates although all points are covered")
        if kind in ("CircularCoords", "ToroidalCoords"):
            d = (got[cov] - want) / (2 * np.pi)
            err = float(ref.circ_err(d).max())
        else:
            ctx.check(bool((np.abs(np.linalg.norm(got[cov], axis=1) - 1) < 1e-6).all()), "not unit vectors")
            err = gauge_error(got[cov], want, GROUP[kind])
        ctx.check(err < 1e-4, "uncovered points changed the coordinates of the others by %.3g", err)
        ctx.state(X, kind, kw)
        ctx.outcome(np.nan_to_num(np.abs(got), nan=-1.0))

    return driver


def scenarios(tier):
    q = tier == "quick"
    lv = [0.0, 0.25, 0.5, 0.75, 1.0, 1.25, 1.5, 2.0]
    return [
        Scenario("patterns2", patterns(2, lv)),
        Scenario("patterns3", patterns(3, lv)),
        Scenario("patterns4", patterns(4, lv[1::2] if q else lv), want=128),
        Scenario("hairline2", patterns(2, [0.5] + [1 + s * 2.0**-k for s in (1, -1) for k in (10, 20, 26, 30)] + [1.0, 1.5], [0.5, 1.0, 0.75, 1.375])),
        Scenario("uncovered", uncovered(CLASSES, 1 if q else 2), bound=1, want=500),
        Scenario("uncovered_compiled", uncovered(CLASSES, 1, bump_names=("exp",)) if not q else uncovered(["CircularCoords", "ComplexProjectiveCoords"], 1, bump_names=("linear",)), "jit", bound=0, want=20),
    ]
