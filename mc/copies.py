"""Large data sets: many copies of the same points beside the same landmarks.

Every copy of a point must get the coordinates that the point gets without the copies (for the
projective types up to the symmetries of the target: repeating every point equally often changes
no principal direction)."""
import numpy as np

from . import families as F
from .engine import Failed
from .gauge import Degenerate, gauge_error, reduce
from .proj import GROUP


def rect(D, thr, levels=(0.6875, 0.875), far=True):
    C = F.clique_columns(D, thr, list(levels), limit=30)
    out = [D, C]
    if far:
        out.append(np.full((len(D), 1), 64.0))
    X = np.hstack(out)
    # unevenly many points of each kind, so that no two principal directions are equally important
    extra = [len(D) + i for i in range(C.shape[1]) for _ in range(i * i % 7)] + [i for i in range(len(D)) for _ in range(i % 4)]
    return np.hstack([X, X[:, extra]])


BASES = {
    "eight": lambda: rect(F.permuted(F.figure_eight(4, 5), [3, 0, 7, 5, 1, 2, 6, 4]), 1.5),
    "fat": lambda: rect(F.disjoint(F.fat_circle(4, 2), F.fat_circle(4, 1), 9.0), 1.5, far=False),
    "circle": lambda: rect(F.circle_metric([1.0, 1.25, 1.5, 1.0, 1.25, 1.0, 1.5, 1.25, 1.0]), 2.5),
    "suspended": lambda: rect(F.suspend(F.circle_metric([1.0] * 5)), 1.5),
    "octahedra": lambda: rect(F.disjoint(F.cross_polytope(3), F.cross_polytope(3, 1.75), 9.0), 1.5),
}
QUERY = {
    "CircularCoords": [dict(), dict(cocycle_idx=1)],
    "ToroidalCoords": [dict(cocycle_idxs=[0, 1]), dict(cocycle_idxs=[1])],
    "ProjectiveCoords": [dict(proj_dim=20), dict(proj_dim=3, projective_dim_red_mode="one-by-one"), dict(proj_dim=2)],
    "LensCoords": [dict(complex_dim=20), dict(complex_dim=3), dict(complex_dim=2, cocycle_idx=1, projective_dim_red_mode="direct")],
    "ComplexProjectiveCoords": [dict(proj_dim=20), dict(proj_dim=3), dict(proj_dim=2, cocycle_idx=1)],
}


def copies(dreimac, kinds, sizes):
    def driver(ctx):
        kind = ctx.choose("kind", kinds)
        base = ctx.choose("base", ["octahedra", "suspended"] if kind == "ComplexProjectiveCoords" else ["eight", "fat", "circle"])
        B = BASES[base]()
        n, m = B.shape
        kw = dict(ctx.choose("query", QUERY[kind]), perc=0.5, standard_range=False)
        if base in ("circle", "suspended") and (1 in kw.get("cocycle_idxs", ()) or kw.get("cocycle_idx")):
            ctx.prune()  # they have one class
        size = ctx.choose("points", sizes)
        fn = ctx.choose("bump", ["linear", "exp"])
        kw["partunity_fn"] = getattr(dreimac.PartUnity, fn)
        times = -(-size // m)
        X = np.hstack([B] * times)
        p = {} if kind == "ProjectiveCoords" else dict(prime=3)
        obj = ctx.call(getattr(dreimac, kind), B, n, distance_matrix=True, **p)
        small, w0 = ctx.attempt(obj.get_coordinates, **kw)
        dims = "complex_dim" if kind == "LensCoords" else "proj_dim"
        if dims in kw:
            full = ctx.call(obj.get_coordinates, **dict(kw, **{dims: n - (dims == "proj_dim"), "projective_dim_red_mode": "direct"}))
            full = full[~np.isnan(full).any(1)]
            try:
                reduce(full, kw[dims] - (dims == "complex_dim"), kw.get("projective_dim_red_mode", "exponential"))
            except Degenerate:
                ctx.note("projection_not_determined")
                ctx.prune()
        big, w1 = ctx.attempt(ctx.call(getattr(dreimac, kind), X, n, distance_matrix=True, **p).get_coordinates, **kw)
        for r in (small, big):
            ctx.check(not isinstance(r, Failed), "get_coordinates %r", r)
        far = (B.min(0) > 8).sum()
        for w, c in ((w0, far), (w1, far * times)):
            said = [x for x in w if "not covered" in x]
            ctx.check(bool(said) == bool(c) and (not c or str(c) in said[0].split()),
                      "%d of the points are not covered, the warnings say %s", c, said)
        circular = kind in ("CircularCoords", "ToroidalCoords")
        a, b = np.atleast_2d(np.array(small)), np.atleast_2d(np.array(big))
        if circular:
            a, b = a.T, b.T
        ctx.check(a.shape[0] == m and b.shape == (m * times, a.shape[1]), "shapes %s for %d points and %s for %d", a.shape, m,
                  b.shape, m * times)
        blocks = b.reshape(times, m, -1)
        undefined = np.isnan(a).any(1)
        ctx.check(np.array_equal(np.isnan(blocks).any(2), np.tile(undefined, (times, 1))),
                  "%d points: other points are undefined than without the copies", m * times)
        one = blocks[:, ~undefined]
        d = np.abs(one - one[0])
        d = np.minimum(d, np.abs(2 * np.pi - d)) if circular else d
        at = np.unravel_index(int(np.argmax(d)), d.shape)
        ctx.check(d.max(initial=0) < 1e-7, "%d points: copy %d of point %d is mapped to %s, the first copy to %s", m * times,
                  at[0], np.flatnonzero(~undefined)[at[1]], one[at[0], at[1]].tolist(), one[0, at[1]].tolist())
        if circular:
            e = np.abs(one[0] - a[~undefined])
            e = np.minimum(e, 2 * np.pi - e).max()
        else:
            e = gauge_error(a[~undefined], one[0], GROUP[kind](3))
        ctx.check(e < 1e-4, "%d points: coordinates differ by %.3g from those without the copies", m * times, e)
        ctx.state(kind, base, size, sorted(str(x) for x in kw.items()))
        ctx.outcome(np.round(np.abs(a[~undefined]), 4), times)

    return driver


SIZES = [300, 1100, 2100, 5000]
LARGE = SIZES + [9000, 17000, 33000, 66000, 100100]
