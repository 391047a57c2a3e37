"""Oracle for real projective, lens and complex projective coordinates."""
import numpy as np

from . import ref
from .circle import reference
from .common import bumps, select
from .engine import Failed, Violation
from .gauge import Degenerate, gauge_error, reduce

GROUP = {"ProjectiveCoords": lambda p: 2, "LensCoords": lambda p: p, "ComplexProjectiveCoords": lambda p: "phase"}


def finite_field_map(K, cd, zeta, varphi, U):
    M = np.ones((K.n, K.n), complex)
    for (a, b), x in cd.items():
        M[a, b] = zeta ** x
        M[b, a] = zeta ** (-x)
    j = K.n - 1 - np.argmax(U[::-1], 0)
    return np.sqrt(np.nan_to_num(varphi)).T * M[j, :]


def complex_map(K, c, varphi, U):
    nu = K.pinv1 @ c
    eta = c - K.d1 @ nu
    N = np.zeros((K.n, K.n))
    for (a, b), x in zip(K.edges, nu):
        N[a, b], N[b, a] = x, -x
    T = np.zeros((K.n,) * 3)
    for (a, b, d), x in zip(K.tri, eta):
        T[a, b, d] = T[b, d, a] = T[d, a, b] = x
        T[b, a, d] = T[a, d, b] = T[d, b, a] = -x
    j = K.n - 1 - np.argmax(U[::-1], 0)
    V = np.nan_to_num(varphi)
    ph = N[:, j] + np.einsum("ijt,tj->ij", T[:, j, :], V)
    return (np.sqrt(V) * np.exp(2j * np.pi * ph)).T


def class_maps(kind, K, cds, p, varphi, covered, U, check=True, span=2):
    """The classifying maps the property allows, one per admissible cocycle."""
    v, u = varphi[:, covered], U[:, covered]
    for cd in cds:
        if kind == "ComplexProjectiveCoords":
            ls = ref.lifts(ref.vec(cd, K.tri), K.d2, lambda: K.h2, p, check=check, span=span)
            if ls is None:
                continue
            for c in ls:
                yield complex_map(K, c, v, u)
        else:
            zeta = -1.0 if kind == "ProjectiveCoords" else np.exp(2j * np.pi / p)
            yield finite_field_map(K, cd, zeta, v, u)


def n_columns(kind, kw):
    return kw["complex_dim"] if kind == "LensCoords" else kw["proj_dim"] + 1


def projective_run(ctx, dreimac, raw_ripser, kind, X, dm, n_land, prime, k, perc, bump, sr, dim, mode, exact,
                   maxdim=None, check=True, tol=2e-4, direct=False):
    hd = 2 if kind == "ComplexProjectiveCoords" else 1
    maxdim = hd if maxdim is None else maxdim
    pers = ref.Persistence(X, n_land, dm, prime, maxdim, raw_ripser)
    if len(pers.classes[hd]) <= k:
        ctx.prune()
    kw = dict() if kind == "ProjectiveCoords" else dict(prime=prime)
    obj = ctx.call(getattr(dreimac, kind), X.copy(), n_land, distance_matrix=dm, maxdim=maxdim, **kw)
    b, e, cds = select(pers, obj, hd, k)
    if sr and 2 * b > e:
        ctx.prune()
    thr, K, varphi, covered, U = reference(ctx, pers, b, e, perc, sr, bump, exact)
    assert ref.is_clique_system(K, U)
    args = dict(perc=perc, cocycle_idx=k, partunity_fn=bumps(dreimac)[bump], standard_range=sr,
                projective_dim_red_mode=mode)
    if kind == "LensCoords":
        args["complex_dim"] = dim + 1
    else:
        args["proj_dim"] = dim
    if hd == 2:
        args["check_cocycle_condition"] = check
        if direct or not check:
            for cd in cds:
                c = np.array([ref.sym_lift(int(x), prime) for x in ref.vec(cd, K.tri)])
                if np.any(K.d2 @ c) or (prime == 2 and len(K.tet)):
                    ctx.prune()
    got, warns = ctx.attempt(obj.get_coordinates, **args)
    if isinstance(got, Failed):
        if not list(class_maps(kind, K, cds, prime, varphi, covered, U, check)):
            ctx.note("torsion")
            return None
        raise Violation("get_coordinates %r" % got)
    got = np.asarray(got)
    n = pers.n
    ctx.check(got.shape == (pers.dist.shape[1], min(dim + 1, n)), "shape %s, expected %s", got.shape,
              (pers.dist.shape[1], min(dim + 1, n)))
    if kind == "ProjectiveCoords":
        ctx.check(np.isrealobj(got), "real projective coordinates are complex")
    bad = ~np.isfinite(got).all(1)
    ctx.check(np.isnan(got[~covered]).all(), "an uncovered point has defined coordinates")
    err, degenerate = compare(ctx, kind, K, cds, prime, varphi, covered, U, check, dim, mode, got[covered])
    ctx.state(pers.D, thr, kind, sorted(cds[0].items()), mode, dim, bump)
    if degenerate:
        ctx.note("projection_not_determined")
        return got
    ctx.check(err <= tol, "%s deviate by %.3g from the reduced classifying map (birth %g death %g threshold %g)",
              kind, err, b, e, thr)
    ctx.check(bool((np.abs(np.linalg.norm(got[covered], axis=1) - 1) < 1e-6).all()), "not unit vectors")
    ctx.outcome(np.round(np.abs(ref_gram(got[covered])), 4))
    ctx.note("compared_points", int(covered.sum()))
    return got


def ref_gram(A):
    return np.conjugate(A) @ A.T


def compare(ctx, kind, K, cds, prime, varphi, covered, U, check, dim, mode, got):
    best = np.inf
    for span in (2, 4) if kind == "ComplexProjectiveCoords" else (2,):
        for M in class_maps(kind, K, cds, prime, varphi, covered, U, check, span):
            try:
                R = reduce(M, dim, mode)
            except Degenerate:
                return None, True
            if not np.isfinite(got).all():
                return np.inf, False
            best = min(best, gauge_error(R, got, GROUP[kind](prime)))
            if best < 1e-5:
                return best, False
    return best, False
