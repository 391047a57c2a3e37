import contextlib
import functools
import io

import numpy as np

from mc.env import dreimac, raw_ripser
from mc import ref
from mc.common import KNIFE, bumps, scale, select
from mc.engine import Failed, Scenario
from mc.gauge import Degenerate, gauge_error, reduce
from mc.proj import class_maps, n_columns

ASSUMPTIONS = [
    "data sets without ties in the farthest-point sampling, the filtration or the diagrams",
    "presentations for which ripser returns representatives other than the same one up to sign are not compared (counted as other_representative)",
    "tolerance 2e-4 (float32 end points); data within 1e-5 of a threshold is not used",
]


# ------------------------------------------------------------------ data (integer coordinates, no ties)
def ring(n, rx, ry, cx, cy, seed):
    out = []
    k = seed
    for i in range(n):
        k = (k * 37 + 11) % 101
        t = 2 * np.pi * (i + k / 400.0) / n
        out.append((round(cx + (rx + k % 7) * np.cos(t)), round(cy + (ry + k % 5) * np.sin(t))))
    return out


def sphere(n, R, seed):
    out = []
    k = seed
    for i in range(n):
        k = (k * 37 + 11) % 101
        z = 1 - 2 * (i + 0.5) / n
        t = 2.399963 * i + k / 500.0
        r = np.sqrt(1 - z * z)
        q = R + k % 6
        out.append((round(q * r * np.cos(t)), round(q * r * np.sin(t)), round(q * z)))
    return out


@functools.lru_cache(maxsize=None)
def cloud(name):
    """(integer point cloud starting at its first landmark, number of landmarks)."""
    if name == "circle":
        return np.array(ring(18, 100, 90, 0, 0, 42)), 10
    if name == "two loops":
        return np.array(ring(12, 100, 100, 0, 0, 98) + ring(10, 70, 60, 220, 10, 38)), 16
    if name == "apart":
        return np.array(ring(9, 100, 90, 0, 0, 98) + ring(8, 60, 75, 900, 10, 33)), 13
    if name == "sphere":
        return np.array(sphere(22, 100, 28)), 14
    raise KeyError(name)


DATA = {
    "CircularCoords": ["circle", "two loops", "apart"],
    "ToroidalCoords": ["two loops", "apart"],
    "ProjectiveCoords": ["circle", "two loops"],
    "LensCoords": ["circle", "two loops"],
    "ComplexProjectiveCoords": ["sphere"],
}
QUERIES = {
    "CircularCoords": [dict(), dict(cocycle_idx=0, partunity_fn="exp"), dict(perc=0.9, cocycle_idx=1)],
    "ToroidalCoords": [dict(cocycle_idxs=[0]), dict(cocycle_idxs=[0, 1])],
    "ProjectiveCoords": [dict(proj_dim=2), dict(proj_dim=3, projective_dim_red_mode="one-by-one", partunity_fn="quadratic")],
    "LensCoords": [dict(complex_dim=2), dict(complex_dim=3, projective_dim_red_mode="direct")],
    "ComplexProjectiveCoords": [dict(proj_dim=1), dict(proj_dim=2, projective_dim_red_mode="one-by-one")],
}
PRIMES = {"CircularCoords": [41, 3], "ToroidalCoords": [41], "ProjectiveCoords": [2], "LensCoords": [3, 5],
          "ComplexProjectiveCoords": [41]}
GROUP = {"ProjectiveCoords": 2, "ComplexProjectiveCoords": "phase"}


# ------------------------------------------------------------------ presentations
def spiral(i):
    c, s = np.cos(0.7 + i), np.sin(0.7 + i)
    return c, s


ISO = ["none", "translated", "rotated", "reflected", "permuted axes", "extra axis", "far away"]
FORMS = ["cloud", "square", "rectangular", "more rows"]
DTYPES = ["f8", "f4", "i8", "i4", "i2"]
LAYOUT = ["C", "F", "strided", "reversed", "readonly", "readonly F", "view"]
SCALES = [1, 2.0**-12, 3.0, 1000.0, 1e-6, 1e6]
ORDERS = ["as is", "reversed", "evens first", "rotated", "landmarks last"]
EXTRAS = ["none", "middle one", "one at a landmark", "at both ends", "many"]


def isometry(A, how):
    A = A.astype(float)
    d = A.shape[1]
    if how == "translated":
        return A + np.arange(1, d + 1) * 7.25
    if how == "far away":
        return A + 4096.0
    if how in ("rotated", "reflected"):
        c, s = 0.6, 0.8
        R = np.eye(d)
        R[:2, :2] = [[c, -s], [s, c]]
        if how == "reflected":
            R[0] *= -1
        return A @ R.T
    if how == "permuted axes":
        return A[:, ::-1].copy()
    if how == "extra axis":
        return np.hstack([A, np.full((len(A), 1), 3.0)])
    return A


def layout(X, how):
    if how == "F":
        return np.asfortranarray(X)
    if how == "strided":
        return np.repeat(np.repeat(X, 2, axis=0), 3, axis=1)[::2, ::3]
    if how == "reversed":
        return X[::-1, ::-1].copy()[::-1, ::-1]
    if how == "view":
        Y = np.zeros((X.shape[0] + 2, X.shape[1] + 3), X.dtype)
        Y[1:-1, 2:-1] = X
        return Y[1:-1, 2:-1]
    if how.startswith("readonly"):
        X = np.array(X, order="F" if how.endswith("F") else "C")
        X.setflags(write=False)
    return X


def sampling_gap(D, n):
    """Smallest margin by which the farthest-point sampling from 0 is determined, and its order."""
    idx, ds, gap = [0], D[0].copy(), np.inf
    for _ in range(1, n):
        i = int(np.argmax(ds))
        o = np.sort(np.delete(ds, i))
        gap = min(gap, ds[i] - (o[-1] if len(o) else 0))
        idx.append(i)
        ds = np.minimum(ds, D[i])
    return idx, gap, ds.max()


class Presentation:
    """The array to pass, landmarks to ask for, and for each base point its row among the results."""


def present(ctx, name, rounded, choose):
    base, n_land = cloud(name)
    n = len(base)
    P = base.astype(float)
    if rounded:
        D0 = np.rint(16 * ref.pdist(P))
    else:
        D0 = ref.pdist(P)
    land, gap, reach = sampling_gap(D0, n_land)
    assert gap > 1e-3, (name, gap)
    form = choose("form", FORMS if not rounded else FORMS[1:])
    extra = choose("extra", EXTRAS)
    order = choose("order", ORDERS)
    iso = choose("isometry", ISO if not rounded else ["none"])
    s = choose("scale", SCALES)
    dt = choose("dtype", DTYPES)
    lay = choose("layout", LAYOUT)
    talk = choose("verbose", [False, True])
    if rounded and extra not in ("none", "one at a landmark"):
        ctx.prune()
    if dt.startswith("i") and (s not in (1, 3.0, 1000.0) or iso not in ("none", "permuted axes") or extra in ("middle one", "many")
                               or (form != "cloud" and not rounded)):
        ctx.prune()
    # further points
    A, at = P, np.arange(n)
    near = lambda i, f: P[i] + f * (P[int(np.argsort(D0[i])[1])] - P[i])
    more = {"none": [], "middle one": [(n // 2, near(3, 0.3))], "one at a landmark": [(n - 1, P[land[2]])],
            "at both ends": [(1, P[land[1]]), (n, P[land[-1]])],
            "many": [(k, near(k - 1, 0.25)) for k in range(2, n, 3)]}[extra]
    for pos, x in sorted(more, key=lambda t: -t[0]):
        A = np.insert(A, pos, x, axis=0)
        at = at + (at >= pos)
    # reorder everything but the first point
    m = len(A)
    is_land = np.zeros(m, bool)
    is_land[at[land]] = True
    rest = list(range(1, m))
    perm = {"as is": rest, "reversed": rest[::-1], "evens first": rest[1::2] + rest[::2], "rotated": rest[5:] + rest[:5],
            "landmarks last": [i for i in rest if not is_land[i]] + [i for i in rest if is_land[i]]}[order]
    perm = np.array([0] + perm)
    A = A[perm]
    inv = np.argsort(perm)
    at = inv[at]
    new_land = [int(at[i]) for i in land]
    B = isometry(A, iso) * s
    D = ref.pdist(B)
    if rounded:
        D = np.rint(16 * ref.pdist(A)) * s
    idx, gap2, _ = sampling_gap(D, n_land)
    if gap2 < 1e-4 * s and not (extra != "none" and idx == new_land and gap2 > 1e-6 * s):
        ctx.prune()  # further points could be landmarks themselves
    if idx != new_land:
        ctx.prune()
    r = Presentation()
    if form == "cloud":
        X, r.dm = B, False
    elif form == "square":
        X, r.dm = D, True
    else:
        rows = list(new_land)
        if form == "more rows":
            rows = [0] + [i for i in range(1, m) if i in set(new_land) or i % 4 == 1]
        others = [i for i in range(m) if i not in set(rows)]
        if not others:
            ctx.prune()
        cols = np.array(rows + others)
        X, r.dm = D[np.ix_(rows, cols)], True
        at = np.argsort(cols)[at]
    if dt.startswith("i"):
        X = np.rint(X)
        if np.abs(X).max() > np.iinfo(dt).max:
            ctx.prune()
    r.X = layout(X.astype(dt), lay)
    r.n_land, r.at, r.scale, r.count = n_land, at, float(s), m
    r.plain = (form, extra, order, iso, s, dt, lay, talk)
    r.verbose = talk
    return r


def run(ctx, kind, p, kw, r):
    args = dict(kw)
    args["partunity_fn"] = bumps(dreimac)[kw.get("partunity_fn", "linear")]
    args.setdefault("standard_range", False)
    args.setdefault("perc", 0.75)
    hd = 2 if kind == "ComplexProjectiveCoords" else 1
    ck = {} if kind == "ProjectiveCoords" else dict(prime=p)
    keep = np.array(r.X, copy=True)
    pers = ref.Persistence(np.array(r.X), r.n_land, r.dm, p, hd, raw_ripser)
    if r.verbose:
        ck["verbose"] = True
    with contextlib.redirect_stdout(io.StringIO()):
        obj = ctx.call(getattr(dreimac, kind), r.X, r.n_land, distance_matrix=r.dm, maxdim=hd, **ck)
        got, warns = ctx.attempt(obj.get_coordinates, **args)
    ctx.check(np.array_equal(keep, r.X), "the data was modified")
    ks = args.get("cocycle_idxs", [args.get("cocycle_idx", 0)])
    out = dict(got=got, pers=pers, dgms=[np.asarray(d, float) / r.scale for d in obj.dgms_], warns=warns)
    sel = [select(pers, obj, hd, k) for k in ks if k < len(obj.dgms_[hd])]
    ctx.check(len(sel) == len(ks), "class %s missing: %s", ks, out["dgms"])
    b, e = max(x[0] for x in sel), min(x[1] for x in sel)
    out["cds"] = [x[2][0] for x in sel]
    _, out["thr"] = scale(b, e, args["perc"], args["standard_range"])
    if not isinstance(got, Failed):
        got = np.asarray(got)
        if kind == "ToroidalCoords":
            ctx.check(got.ndim == 2 and got.shape[1] == r.count, "shape %s for %d points", got.shape, r.count)
            got = got[:, r.at]
        else:
            ctx.check(len(got) == r.count, "%d results for %d points", len(got), r.count)
            got = got[r.at]
        out["got"] = got
    return out


_BASE = {}


def baseline(ctx, kind, name, p, kw, rounded, key):
    if key not in _BASE:
        first = Presentation()
        r = present(ctx, name, rounded, lambda label, options: options[0])
        _BASE[key] = run(ctx, kind, p, kw, r)
    return _BASE[key]


def same_dict(a, b, p):
    return all((a.get(s, 0) - b.get(s, 0)) % p == 0 for s in set(a) | set(b))


def driver_for(kinds, forms_rounded=(False, True), light=False):
    def driver(ctx):
        kind = ctx.choose("class", kinds)
        name = ctx.choose("data", DATA[kind])
        p = ctx.choose("prime", PRIMES[kind] if not light else PRIMES[kind][:1])
        kw = ctx.choose("query", QUERIES[kind] if not light else QUERIES[kind][-1:])
        rounded = ctx.choose("rounded", list(forms_rounded))
        if kw.get("cocycle_idx", 0) == 1 and name == "circle":
            kw = dict(kw, cocycle_idx=0, standard_range=True)
        base = baseline(ctx, kind, name, p, kw, rounded, (kind, name, p, str(kw), rounded))
        choose = lambda label, options: ctx.choose(label, options, True)
        if light:
            choose = lambda label, options: ctx.choose(label, options if label in ("form", "dtype", "layout") else options[:1], True)
        r = present(ctx, name, rounded, choose)
        if r.plain[1] != "none" and kind != "CircularCoords":
            ctx.prune()
        new = run(ctx, kind, p, kw, r)
        ctx.state(kind, name, p, str(kw), rounded, r.plain)
        # diagrams
        ctx.check(len(new["dgms"]) == len(base["dgms"]), "%d diagrams instead of %d", len(new["dgms"]), len(base["dgms"]))
        top = base["pers"].D.max()
        for d, (A, B) in enumerate(zip(base["dgms"], new["dgms"])):
            ok = A.shape == B.shape
            if ok:
                a, b = np.sort(A, 0), np.sort(B, 0)
                f = np.isfinite(a)
                ok = np.array_equal(f, np.isfinite(b)) and (np.abs(a[f] - b[f]) < 1e-5 * top).all()
            ctx.check(ok, "degree %d: diagram %s, presented otherwise %s", d, A.tolist(), B.tolist())
        A, B = base["got"], new["got"]
        if isinstance(A, Failed) or isinstance(B, Failed):
            ctx.check(isinstance(A, Failed) and isinstance(B, Failed), "%s, presented otherwise %s", A, B)
            ctx.outcome("refused")
            return
        sign = None
        for s in (1, -1):
            if all(same_dict(x, {k: s * v for k, v in y.items()}, p) for x, y in zip(base["cds"], new["cds"])):
                sign = s
        if sign is None:
            ctx.note("other_representative")
            ctx.prune()
        thr, dist = base["thr"], base["pers"].dist
        if min(np.abs(dist - thr / 2).min(), np.abs(base["pers"].D - thr).min()) < 1e-5 * thr:
            ctx.prune()
        K = ref.rips(base["pers"].D, thr)
        n = len(cloud(name)[0])
        at = np.arange(n) if base["pers"].dist.shape[1] == n else None
        U = reorder(base, name, rounded)[0] < thr / 2
        cov = U.any(0)
        if kind in ("CircularCoords", "ToroidalCoords"):
            a, b = np.atleast_2d(A), np.atleast_2d(B)
            ctx.check(a.shape == b.shape, "shape %s, presented otherwise %s", a.shape, b.shape)
            for x, y in zip(a, b):
                ctx.check(np.array_equal(np.isnan(x), ~cov) and np.array_equal(np.isnan(y), ~cov), "undefined points differ")
                comp = K.comp[np.argmax(U[:, cov], 0)]
                err = min(ref.rotation_error(x[cov] / (2 * np.pi), s * y[cov] / (2 * np.pi), comp) for s in (1, sign))
                ctx.check(err < 2e-4, "circular coordinates differ by %.3g turns", err)
            ctx.outcome(np.round(a, 3))
            return
        ctx.check(A.shape == B.shape, "shape %s, presented otherwise %s", A.shape, B.shape)
        ctx.check(np.array_equal(np.isnan(B).any(1), ~cov), "undefined points differ")
        ctx.check(np.array_equal(np.iscomplexobj(A), np.iscomplexobj(B)), "number types of the results differ")
        dd, _ = reorder(base, name, rounded)
        varphi, covered, U = ref.partition(dd, thr / 2, kw.get("partunity_fn", "linear"))
        args = dict(kw)
        try:
            for M in class_maps(kind, K, base["cds"][:1], p, varphi, covered, U, span=0):
                reduce(M, n_columns(kind, args) - 1, kw.get("projective_dim_red_mode", "exponential"))
        except Degenerate:
            ctx.note("projection_not_determined")
            ctx.prune()
        g = GROUP.get(kind, p)
        err = gauge_error(A[cov], B[cov] if sign == 1 else np.conjugate(B[cov]), g)
        ctx.check(err < 5e-4, "%s differ by %.3g", kind, err)
        ctx.outcome(np.round(np.abs(A), 3))

    return driver


def reorder(base, name, rounded):
    """Distances from the landmarks to the base points, in the order of the base points."""
    P = cloud(name)[0].astype(float)
    D = np.rint(16 * ref.pdist(P)) if rounded else ref.pdist(P)
    land, _, _ = sampling_gap(D, cloud(name)[1])
    return D[land], land


def scenarios(tier):
    q = tier == "quick"
    K = list(DATA)
    return [
        Scenario("presentations", driver_for(K), bound=2 if q else 3, want=256),
        Scenario("compiled", driver_for(K, light=True), mode="jit", bound=1 if q else 2, want=40),
    ]
