import contextlib
import io
import itertools

import numpy as np

from mc.env import Hooks, dreimac  # noqa: F401
from dreimac.utils import EquivariantPCA
from mc.engine import Failed, Scenario
from mc.gauge import GAP, NORM, Degenerate, gram, reduce, schedule

ASSUMPTIONS = [
    "results are compared where every spectral gap exceeds 1e-4 and no projected point is shorter than 1e-3; "
    "elsewhere the statement leaves them undetermined and only shapes and exceptions are checked",
]
MODES = ["exponential", "direct", "one-by-one"]


def unit(v):
    v = np.array(v)
    return v / np.linalg.norm(v)


def alphabet(d, entries):
    out = []
    for v in itertools.product(entries, repeat=d):
        nz = [x for x in v if x != 0]
        if nz and nz[0] == 1:  # up to sign / phase
            out.append(unit(v))
    return out


REAL = {d: alphabet(d, (0, 1, -1)) for d in (2, 3, 4)}
COMPLEX = {d: alphabet(d, (0, 1, 1j)) for d in (2, 3)}
# generic points: no projection to coordinate subspaces vanishes
rng = np.random.RandomState(5)
GENERIC = {d: [unit(rng.randn(d) + 1.5) for _ in range(9)] for d in range(2, 10)}
GENERIC_C = {d: [unit(rng.randn(d) + 1j * rng.randn(d)) for _ in range(9)] for d in range(2, 10)}


def images(ctx, X, dim, mode, **kw):
    keep = X.copy()
    res, _ = ctx.attempt(EquivariantPCA.ppca, X, dim, mode, **kw)
    ctx.check(not isinstance(res, Failed), "%s", res)
    ctx.check(np.array_equal(keep, X, equal_nan=True), "the input was modified")
    Y = np.asarray(res["X"])
    ctx.check(Y.shape == (len(X), min(dim + 1, X.shape[1])), "shape %s from %s for dimension %d",
              Y.shape, X.shape, dim)
    return Y, np.asarray(res["variance"])


def against_reference(ctx, X, dim, mode, Y, var=None):
    good = ~np.isnan(X).any(1)
    try:
        R = reduce(X[good], dim, mode)
    except Degenerate:
        ctx.note("not_determined")
        return False
    G = Y[good]
    ctx.check(bool(np.isfinite(G).all()), "undefined image of a defined point")
    ctx.check(bool((np.abs(np.linalg.norm(G, axis=1) - 1) < 1e-9).all()), "image is not a unit vector")
    ctx.check(bool(np.isnan(Y[~good]).any(1).all()), "an undefined point got a defined image")
    err = np.abs(gram(G) - gram(R)).max() if len(G) else 0.0
    ctx.check(err < 1e-6, "image differs from the principal projection by %.3g", err)
    if mode == "one-by-one" and var is not None:
        check_variance(ctx, X[good], var)
    return True


def check_variance(ctx, X, var):
    d = X.shape[1]
    ctx.check(len(var) == d - 1, "%d variances in dimension %d", len(var), d)
    for i in range(d - 1):
        w, U = np.linalg.eigh(X.T @ np.conjugate(X))
        if w[1] - w[0] < GAP * max(1, w[-1]):
            return
        c = np.clip(np.abs(X @ np.conjugate(U[:, 0])), 0, 1)
        v = np.mean(np.arcsin(c) ** 2)
        ctx.check(abs(var[-i - 1] - v) < 1e-6, "variance of removed direction %d is %g, expected %g", i, var[-i - 1], v)
        X = X @ np.conjugate(U[:, :0:-1])
        n = np.linalg.norm(X, axis=1)
        if (n < NORM).any():
            return
        X = X / n[:, None]


def points(field, d, n):
    alpha = REAL[d] if field == "real" else COMPLEX[d]

    def driver(ctx):
        idx, lo = [], 0
        for i in range(n):
            j = ctx.choose("x%d" % i, list(range(lo, len(alpha))))
            idx.append(j)
            lo = j
        X = np.array([alpha[j] for j in idx])
        dim = ctx.choose("proj_dim", list(range(0, d + 1)))
        mode = ctx.choose("mode", MODES)
        Y, var = images(ctx, X, dim, mode)
        against_reference(ctx, X, dim, mode, Y, var)
        ctx.state(X, dim, mode)
        ctx.outcome(np.abs(gram(Y)))

    return driver


def sets(field, d, n):
    """A few fixed point sets per dimension: generic, inside a subspace, with repeated points."""
    G = GENERIC if field == "real" else GENERIC_C
    base = np.array(G[d][:n])
    if d <= 3 or field == "real":
        sub = base.copy()
        sub[:, d // 2 + 1:] = 0
        sub = sub / np.linalg.norm(sub, axis=1)[:, None]
    else:
        sub = base
    return {"generic": base, "subspace": sub, "repeated": np.vstack([base[:3], base[:2]])}


def orthogonal(d, k, field):
    r = np.random.RandomState(100 + k)
    A = r.randn(d, d) + (1j * r.randn(d, d) if field == "complex" else 0)
    Q, _ = np.linalg.qr(A)
    if k == 0:
        return np.eye(d)[::-1].astype(A.dtype)
    if k == 1:
        return -np.eye(d, dtype=A.dtype) if field == "real" else 1j * np.eye(d)
    return Q


def equivariance(field, d, n):
    scal = [1.0, -1.0] if field == "real" else [1.0, 1j, np.exp(2j * np.pi / 3)]

    def driver(ctx):
        name = ctx.choose("set", ["generic", "subspace", "repeated"])
        X = sets(field, d, n)[name]
        dim = ctx.choose("proj_dim", list(range(0, d + 1)))
        mode = ctx.choose("mode", MODES)
        s = np.array([ctx.choose("scalar%d" % i, scal, True) for i in range(len(X))])
        V = ctx.choose("basis_change", [None, 0, 1, 2, 3], True)
        Z = X * s[:, None]
        if V is not None:
            Z = Z @ orthogonal(d, V, field)
        A, va = images(ctx, X, dim, mode)
        B, vb = images(ctx, Z, dim, mode)
        ok = against_reference(ctx, X, dim, mode, A, va)
        if ok:
            err = np.abs(np.conjugate(s)[:, None] * gram(A) * s[None, :] - gram(B)).max()
            ctx.check(err < 1e-6, "not equivariant: %.3g", err)
            if mode == "one-by-one":
                check_variance(ctx, Z, vb)
        ctx.state(Z, dim, mode)
        ctx.outcome(np.abs(gram(B)))

    return driver


def reference_with_faults(X, dim, mode, failed):
    """Norm of each point's image before normalising stays away from zero under the fault pattern?"""
    ok = np.ones(len(X), bool)
    steps = schedule(X.shape[1], dim + 1, mode)
    if mode == "one-by-one":
        steps = list(range(X.shape[1] - 1, 0, -1))
    for i, k in enumerate(steps):
        if i in failed:
            U = np.eye(X.shape[1])
        else:
            _, U = np.linalg.eigh(X[ok].T @ np.conjugate(X[ok]))
            U = U[:, ::-1]
        X = X @ np.conjugate(U[:, :k])
        n = np.linalg.norm(X, axis=1)
        ok &= n > NORM
        X = X / np.where(n > 0, n, 1)[:, None]
        if k == dim + 1:
            break
    return ok


def faults(field, d, n):
    def driver(ctx):
        G = GENERIC if field == "real" else GENERIC_C
        X = np.array(G[d][:n])
        dim = ctx.choose("proj_dim", list(range(0, d)))
        mode = ctx.choose("mode", MODES)
        kind = ctx.choose("undefined", ["none", "whole", "partial", "partial last", "all"], True)
        if kind in ("whole", "partial", "partial last"):
            j = ctx.choose("which", list(range(n)))
            X = X.copy()
            X[j, slice(None) if kind == "whole" else 0 if kind == "partial" else -1] = np.nan
        elif kind == "all":
            X = X * np.nan
        failed, calls = set(), [0]
        errs = [None, np.linalg.LinAlgError("Eigenvalues did not converge")]

        def hook(a, k):
            i = calls[0]
            calls[0] += 1
            e = ctx.choose("eigh%d" % i, errs, True)
            if e is not None:
                failed.add(i)
                raise e

        Hooks.eigh = hook
        try:
            Y, var = images(ctx, X, dim, mode)
        finally:
            Hooks.clear()
        good = ~np.isnan(X).any(1)
        ctx.state(X, dim, mode, sorted(failed))
        ctx.outcome(np.nan_to_num(np.abs(Y), nan=-1.0))
        ctx.check(bool(np.isnan(Y[~good]).any(1).all()), "an undefined point got a defined image")
        if not good.any():
            return
        ok = reference_with_faults(X[good], dim, mode, failed)
        Z = Y[good][ok]
        ctx.check(bool(np.isfinite(Z).all()), "a fault made the image of a point undefined")
        ctx.check(bool((np.abs(np.linalg.norm(Z, axis=1) - 1) < 1e-9).all()), "a fault made an image non-unit")
        if not failed:
            against_reference(ctx, X, dim, mode, Y)

    return driver


def large(dims, sizes):
    """Many dimensions and points, the spectrum decaying geometrically."""

    def driver(ctx):
        d = ctx.choose("d", dims)
        n = ctx.choose("n", sizes)
        field = ctx.choose("field", ["real", "complex"])
        r = np.random.RandomState(d)
        Z = r.randn(n, d) + (1j * r.randn(n, d) if field == "complex" else 0)
        Z = Z * 0.85 ** np.arange(d)[None, :] + (0.25 if field == "real" else 0.25j)
        Z = np.vstack([Z @ orthogonal(d, 7, field)])
        X = Z / np.linalg.norm(Z, axis=1)[:, None]
        dim = ctx.choose("proj_dim", sorted({0, 1, 2, 3, 5, 8, d // 2, d - 3, d - 2, d - 1, d + 3}))
        mode = ctx.choose("mode", MODES)
        verbose = ctx.choose("verbose", [False, True])
        order = ctx.choose("order", ["C", "F"])
        X = np.array(X, order=order)
        with contextlib.redirect_stdout(io.StringIO()):
            Y, var = images(ctx, X, dim, mode, **({"verbose": True} if verbose else {}))
        against_reference(ctx, X, dim, mode, Y, var)
        ctx.state(d, n, field, dim, mode, verbose, order)
        ctx.outcome(np.round(np.abs(gram(Y[:6])), 6))

    return driver


def repeated(totals):
    """Nine points in blocks of many equal ones: every one of them counts."""

    def driver(ctx):
        total = ctx.choose("points", totals)
        d = ctx.choose("d", [3, 5, 8])
        field = ctx.choose("field", ["real", "complex"])
        Z = np.array((GENERIC if field == "real" else GENERIC_C)[d])
        share = np.array(ctx.choose("shares", [[1, 2, 3, 4, 5, 6, 7, 8, 9], [9, 1, 1, 1, 1, 1, 1, 1, 9], [9, 8, 7, 6, 5, 4, 3, 2, 1]]))
        m = share * total // share.sum()
        at = np.repeat(np.arange(9), m)
        missing = ctx.choose("undefined", [False, True])
        X = Z[at]
        if missing:
            X[::97] = np.nan
        dim = ctx.choose("proj_dim", sorted({0, 1, d - 2, d - 1}))
        mode = ctx.choose("mode", MODES)
        Y, var = images(ctx, X, dim, mode)
        ctx.state(total, d, field, m, missing, dim, mode)
        good = ~np.isnan(X).any(1)
        try:
            R = reduce(X[good], dim, mode)
        except Degenerate:
            ctx.note("not_determined")
            return
        G = Y[good]
        ctx.check(bool(np.isfinite(G).all()) and bool(np.isnan(Y[~good]).all()), "undefined points differ")
        heads = np.searchsorted(at[good], np.arange(9))
        err = np.abs(gram(G[heads]) - gram(R[heads])).max()
        ctx.check(err < 1e-6, "image of %d points differs from the principal projection by %.3g", len(X), err)
        err = np.abs(np.abs((G * np.conjugate(G[heads][at[good]])).sum(1)) - 1).max()
        ctx.check(err < 1e-6, "equal points have images %.3g apart", err)
        if mode == "one-by-one":
            check_variance(ctx, X[good], var)
        ctx.outcome(np.round(np.abs(gram(G[heads])), 6))

    return driver


def scenarios(tier):
    q = tier == "quick"
    out = [
        Scenario("points_r2", points("real", 2, 4)),
        Scenario("points_r3", points("real", 3, 4 if q else 5), want=128),
        Scenario("points_r4", points("real", 4, 2 if q else 3), want=128),
        Scenario("points_c2", points("complex", 2, 4)),
        Scenario("points_c3", points("complex", 3, 3 if q else 4), want=128),
    ]
    for f in ("real", "complex"):
        for d in (3, 5, 6, 8, 9) if q else range(2, 10):
            out.append(Scenario("equivariance_%s%d" % (f, d), equivariance(f, d, 6), bound=2 if q else 4))
            out.append(Scenario("faults_%s%d" % (f, d), faults(f, d, 6), bound=2 if q else 4))
    out.append(Scenario("repeated", repeated([450, 5000] if q else [450, 5000, 40000]), want=64))
    out.append(Scenario("large", large([12, 16, 17, 33, 44] if q else [10, 11, 12, 13, 16, 17, 23, 33, 40, 64], [70, 700]), want=64))
    return out
