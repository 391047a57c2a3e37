"""Oracle for one circular coordinate: compare a returned map with the harmonic map of the class."""
import numpy as np

from . import ref
from .common import KNIFE, knife_edge, scale, select
from .engine import Failed, Violation


def lift_candidates(K, cd, p, check=True, span=2):
    cvec = ref.vec(cd, K.edges)
    return ref.lifts(cvec, K.d1, lambda: K.h1, p, check=check, span=span)


def reference(ctx, pers, b, e, perc, sr, bump, exact):
    start, thr = scale(b, e, perc, sr)
    if knife_edge(pers.D, thr, exact) or knife_edge(pers.dist, thr / 2, exact):
        ctx.prune()
    K = ref.rips(pers.D, thr)
    varphi, covered, U = ref.partition(pers.dist, thr / 2, bump)
    if (covered != (np.nan_to_num(varphi).sum(0) > 0)).any():
        ctx.prune()  # bump value underflows
    return thr, K, varphi, covered, U


def match(theta, K, c, varphi, covered, U):
    """Deviation (turns) of theta from the harmonic map of integer cocycle c on the covered points."""
    want, disc = ref.circular_values(K, c, varphi[:, covered], U[:, covered])
    comp = K.comp[np.argmax(U[:, covered], 0)]
    return ref.rotation_error(np.asarray(theta, float)[covered] / (2 * np.pi), want, comp), disc


def fit(theta, K, cds, p, check, varphi, covered, U, span=2):
    """Smallest deviation over representatives and lifts; None if the class has no lift."""
    best, lifts = np.inf, False
    for cd in cds:
        ls = lift_candidates(K, cd, p, check, span)
        if ls is None:
            continue
        lifts = True
        for c in ls:
            err, disc = match(theta, K, c, varphi, covered, U)
            if disc > 1e-6:
                raise AssertionError("reference values differ between balls: %g" % disc)
            best = min(best, err)
            if best < ref.TOL:
                return best
    return best if lifts else None


def is_symmetric_cocycle(K, cd, p):
    c = np.array([ref.sym_lift(int(x), p) for x in ref.vec(cd, K.edges)], dtype=np.int64)
    return not np.any(K.d1 @ c)


def check_shape(ctx, theta, n, covered):
    theta = np.asarray(theta)
    ctx.check(theta.shape == (n,), "shape %s for %d points", theta.shape, n)
    ctx.check(np.isrealobj(theta), "coordinates are not real")
    nan = np.isnan(theta)
    ctx.check(np.array_equal(nan, ~covered), "undefined at %s, uncovered are %s",
              np.flatnonzero(nan).tolist(), np.flatnonzero(~covered).tolist())
    t = theta[covered]
    ctx.check(bool(((t >= 0) & (t <= 2 * np.pi)).all()), "value outside [0, 2 pi]: %s", t.tolist())


def circular_run(ctx, dreimac, raw_ripser, X, dm, n_land, prime, k, perc, bump, sr, check, exact,
                 maxdim=1, min_life=0.0, direct=False, tol=ref.TOL):
    """Construct, query, compare.  Returns the angles.  `direct`: without the cases that need a correction."""
    from .common import bumps

    from .ref import Persistence

    pers = Persistence(X, n_land, dm, prime, maxdim, raw_ripser)
    if len(pers.classes[1]) <= k:
        ctx.prune()
    obj = ctx.call(dreimac.CircularCoords, X.copy(), n_land, distance_matrix=dm, prime=prime, maxdim=maxdim)
    b, e, cds = select(pers, obj, 1, k)
    if sr and 2 * b > e:
        ctx.prune()  # refused: property C08
    thr, K, varphi, covered, U = reference(ctx, pers, b, e, perc, sr, bump, exact)
    if not check and prime == 2 and len(K.tri):
        ctx.prune()  # 1 = -1: no preferred lift, the one used need not be a cocycle
    if (direct or not check) and not all(is_symmetric_cocycle(K, cd, prime) for cd in cds):
        ctx.prune()
    assert ref.is_clique_system(K, U)
    theta, warns = ctx.attempt(
        obj.get_coordinates, perc=perc, cocycle_idx=k, partunity_fn=bumps(dreimac)[bump],
        standard_range=sr, check_cocycle_condition=check)
    if isinstance(theta, Failed):
        if all(lift_candidates(K, cd, prime, check) is None for cd in cds):
            ctx.note("torsion")
            return None
        raise Violation("get_coordinates %r" % theta)
    check_shape(ctx, theta, pers.dist.shape[1], covered)
    err = fit(theta, K, cds, prime, check, varphi, covered, U)
    ctx.check(err is not None, "coordinates returned for a class without an integer lift")
    if err > tol:
        for span in (4, 8):
            err = min(err, fit(theta, K, cds, prime, check, varphi, covered, U, span))
    ctx.check(err <= tol, "circular coordinate deviates by %.3g turns from the harmonic map "
              "(birth %g death %g threshold %g)", err, b, e, thr)
    ctx.state(pers.D, thr, sorted(cds[0].items()))
    ctx.outcome(np.round(theta, 4))
    ctx.note("compared_points", int(covered.sum()))
    return theta
